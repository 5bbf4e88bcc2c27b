From 896387f609fab4bb4b76b54f03dacee221f2ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:31 +0000
Subject: [PATCH 01/42] fix: compute zero multipliers when the problem has
 neither bounds nor constraints

---
 sqpdfo/sqpdfo_prelim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 276812c..8ed220c 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -580,6 +580,9 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
             lm=copy(lm0)
             if options.verbose >= 4:
                 fprintf_(options.fout,'  . |lm|_2                          %8.2e\n'%(norm_(lm)))
+    else:
+        # no bounds and no constraints: all multipliers vanish
+        lm=zeros_(n,1)
 
     # Initial optimality
 
-- 
2.43.0


From 0378a17fd00eb4c619fe3fb8e11c0a172cfd4288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:46 +0000
Subject: [PATCH 02/42] fix: scalar polynomial coefficients in the hard case of
 the trust-region solver

---
 sqpdfo/bcdfo_solve_TR_MS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index 253435a..b4689e6 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -303,7 +303,7 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         nscri=0
         
     if (nscri <= Delta):
-        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri),nscri ** 2 - Delta ** 2])
+        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * float(V[:,imu].dot( scri )[0]),nscri ** 2 - Delta ** 2])
         root=max(p2.r)
         s=scri + root * V[:,imu].reshape(-1,1)
     else:
-- 
2.43.0


From b7a3732ac9499bfcb1cdb7280fe6b10fcb1a1362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:46 +0000
Subject: [PATCH 03/42] fix: constraint gradients are defined when the first
 step is rejected

---
 sqpdfo/sqpdfo_main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 9393d60..4e43482 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -186,12 +186,14 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
     
     if mi > 0:
         ciY=copy(ciX[:,ind_Y])
+        gci=copy(info.ai)
     else:
         ciY=array([])
         gci=array([])
         
     if me > 0:
         ceY=copy(ceX[:,ind_Y])
+        gce=copy(info.ae)
     else:
         ceY=array([])
         gce=array([])
-- 
2.43.0


From 026bae217c044386a7314c09b59377cab23a8b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:16 +0000
Subject: [PATCH 04/42] fix: scalar constant coefficient in the hard case when
 the radius is an array

---
 sqpdfo/bcdfo_solve_TR_MS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index b4689e6..ff059a7 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -303,7 +303,7 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         nscri=0
         
     if (nscri <= Delta):
-        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * float(V[:,imu].dot( scri )[0]),nscri ** 2 - Delta ** 2])
+        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * float(V[:,imu].dot( scri )[0]),float(nscri ** 2 - Delta ** 2)])
         root=max(p2.r)
         s=scri + root * V[:,imu].reshape(-1,1)
     else:
-- 
2.43.0


From 6babaa6155f2503bf9314b528dcdea5378132dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:45 +0000
Subject: [PATCH 05/42] fix: move to any better interpolation point inside the
 bounds after a repair

Compare each point with the bounds component by component, and do not
exclude the point stored at index 1 from the candidates.
---
 sqpdfo/sqpdfo_find_smallf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_find_smallf.py b/sqpdfo/sqpdfo_find_smallf.py
index 86e0dc4..1eb43af 100644
--- a/sqpdfo/sqpdfo_find_smallf.py
+++ b/sqpdfo/sqpdfo_find_smallf.py
@@ -89,7 +89,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
     ind_insideBounds=array([])
     
     for i in range(0,cur_degree):
-        if((isempty_(find_(logical_or_(Y[:,i] < xl[indfree] , Y[:,i] > xu[indfree]),1)))\
+        if((isempty_(find_(logical_or_(Y[:,[i]] < xl[indfree] , Y[:,[i]] > xu[indfree]),1)))\
             and (isempty_(find_(dummy_set == ind_Y[i],1)))):
             ind_insideBounds=concatenate_([ind_insideBounds,[i]],axis=1)
         else:
@@ -116,7 +116,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
     #  Exchange best point only if the new smallest fmin is strictly smaller than fx
     #  (to avoid a change of the center of the interpolation at equal function values)
 
-    if (imin != 1 and fmin < meritY[0]):
+    if (imin != 0 and fmin < meritY[0]):
     
         QZ,RZ,Y,ind_Y,fY,ciY,ceY,x,scale=\
         sqpdfo_swap_in_Y_(0,imin,QZ,RZ,Y,ind_Y,fY,ciY,ceY,x,whichmodel,\
-- 
2.43.0


From 32507c57944abb83e6db2a78ee56f77809368ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:49 +0000
Subject: [PATCH 06/42] fix: use the full penalty parameter when ranking
 interpolation points

---
 sqpdfo/sqpdfo_find_smallf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_find_smallf.py b/sqpdfo/sqpdfo_find_smallf.py
index 1eb43af..0809568 100644
--- a/sqpdfo/sqpdfo_find_smallf.py
+++ b/sqpdfo/sqpdfo_find_smallf.py
@@ -107,7 +107,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
             for i in range(0,cur_degree):
                 norm_ceY[i]=norm_(ceY[:,i])
 
-    meritY=fY + int(sigma) * norm_ceY
+    meritY=fY + float(sigma) * norm_ceY
     
     #  Find the smallest function value among them
 
-- 
2.43.0


From da665149180dfed73a987274a91ec6286b32a286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 07/42] fix: renew the reference merit value when a repair step
 moves the iterate

---
 sqpdfo/sqpdfo_main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 4e43482..f0c3798 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -539,6 +539,11 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                               indfree,x,lb,ub,fx,dstatus,whichmodel,scale,shift_Y,\
                               delta,normgx,kappa_ill,sigma,info,nargout=12)
 
+            # f0, ce0 and merit0 must be renewed if the iterate has moved
+            
+            if i_xbest != i_xold:
+                radius_has_been_rejected=copy(False)
+
             #  Compute new model(s).
 
             fcmodel=bcdfo_computeP_(QZ,RZ,Y,concatenate_([fY.reshape(1,-1),ciY,ceY]),\
-- 
2.43.0


From f0138b063709fe67402601a6a8e23e73654941bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 08/42] fix: report objective and constraint values of the
 returned point

info.f kept the value of a rejected trial point when the run stopped right
after it, and a stale value after a far/close point had become the iterate.
---
 sqpdfo/sqpdfo.py      | 7 ++++---
 sqpdfo/sqpdfo_main.py | 5 ++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index cba39ab..1c35594 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -339,10 +339,11 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     #  Rescale x if necessary
     if (scaleX):
         x=x / scalefacX
-    info_best=copy(info)
-    info_best.f=fx
+    info.f=fx
+    if me:
+        info.ce=ceX[:,[i_xbest]]
     x=X[:,i_xbest]
-    sqpdfo_finish_(nb,mi,me,info_best,options,values)
+    sqpdfo_finish_(nb,mi,me,info,options,values)
 
     #---------------------------------------
     # Recover the results
diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index f0c3798..ee41ef2 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -1083,6 +1083,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
             if pred == - 1.0:
                 pos=0
                 rho=1
+                info.f=copy(fx)
                 
             if (rho < eta1) or (pos == -1):
             
@@ -1257,6 +1258,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                         glob.set_slacks(slplus)
                                     
                                 i_xbest=copy(m)
+                                radius_has_been_rejected=copy(False)
                                 
                                 if (not shift_Y):
                                     x=Y[:,[0]]
@@ -1380,6 +1382,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                             glob.set_slacks(slplus)
                                         
                                     i_xbest=copy(m)
+                                    radius_has_been_rejected=copy(False)
                                     
                                     if (not shift_Y):
                                         x=copy(Y[:,[0]])
@@ -1474,7 +1477,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                 # Recover ce at the current iterate
 
                 #info.ce=ce0
-                info.f=f0
+                info.f=copy(fx)
 
                 # Recompute Lagrange multiplier
 
-- 
2.43.0


From ad62d49af1b8d0b2d6ec3aeed5e68b7716c48c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 09/42] fix: stop when the evaluation of a repaired
 interpolation point fails

---
 sqpdfo/sqpdfo_main.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index ee41ef2..bb21086 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -512,6 +512,12 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                    indfix,indfree,fxmax,neval,xstatus,c.inY,\
                                    sstatus,dstatus,scaleX,scalefacX,info,\
                                    options,values,nargout=10)
+                
+                if info.flag:
+                    # failure in the evaluation of the new point
+                    return nit,i_xbest,x,fx,m,X,fX,ciX,ceX,ind_Y,delta,eps_current,\
+                    cur_degree,fcmodel,gx,normgx,vstatus,xstatus,sstatus,dstatus,M,\
+                    ndummyY,sspace_save,xspace_save,msg,CNTsin,neval,lm,info
                                    
                 fY[j]=fX[m]
                 
-- 
2.43.0


From 1a2a2ed5f7ea7a3487f92c02299a986887d0b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 10/42] fix: forget the slack variables of a previous call

---
 sqpdfo/sqpdfo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 1c35594..abd02b6 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -146,6 +146,10 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         glob.set_slacks(np.zeros((mi, 1)))
         lb = np.concatenate((lb, np.zeros((mi, 1))))
         ub = np.concatenate((ub, 1e20 * np.ones((mi, 1))))
+    else:
+        # no slack variables (forget those of a previous call)
+        glob.set_nbr_slacks(0)
+        glob.set_slacks(None)
 
     #  Set some constants
 
-- 
2.43.0


From 1b6d3286147137bd40a9e6e102743f520ec94b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:48 +0000
Subject: [PATCH 11/42] fix: minimum Frobenius norm interpolation models

Underdetermined models raised (undefined names, shape mismatches) and the
Lagrange values of linear models divided elementwise by the factor.
---
 sqpdfo/bcdfo_computeLj.py |  7 ++++---
 sqpdfo/bcdfo_computeP.py  | 10 ++++------
 sqpdfo/bcdfo_evalL.py     |  9 +++++----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/sqpdfo/bcdfo_computeLj.py b/sqpdfo/bcdfo_computeLj.py
index 1ed35fc..51a6825 100644
--- a/sqpdfo/bcdfo_computeLj.py
+++ b/sqpdfo/bcdfo_computeLj.py
@@ -81,12 +81,13 @@ def bcdfo_computeLj_(QZ=None,RZ=None,j=None,Y_=None,whichmodel=None,scale=None,s
                 Y=Y / scaleY
 #       compute the right-hand side of the system
             rhs=concatenate_([zeros_(j - 1,1),numpy.array([[1]]),zeros_(p1 + n +1 - j,1)],axis=0)
-            mualpha=(numpy.linalg.solve(RZ,(QZ.T.dot(rhs)))).T
+            mualpha=numpy.linalg.solve(RZ,(QZ.T.dot(rhs)))
+            Lj=zeros_(1,q)
 #       constant and linear part of P
-            Lj[0:n + 1]=mualpha[p1:p1 + n + 1].T
+            Lj[0,0:n + 1]=mualpha[p1:p1 + n + 1,0]
 #       quadratic part of P
             M=bcdfo_evalZ_(Y,q).T
-            Lj[n + 1:q]=M[:,n + 1:q].T.dot( mualpha[0:p1]).T
+            Lj[0,n + 1:q]=M[:,n + 1:q].T.dot( mualpha[0:p1,0])
     elif (whichmodel == 2):
 #    build Minimum L2 norm Lagrange polynomials (p1 <= q)
 #    (QZ and RZ are the factors of Z = M')
diff --git a/sqpdfo/bcdfo_computeP.py b/sqpdfo/bcdfo_computeP.py
index 716d14e..4d8bbd8 100644
--- a/sqpdfo/bcdfo_computeP.py
+++ b/sqpdfo/bcdfo_computeP.py
@@ -96,16 +96,14 @@ def bcdfo_computeP_(QZ=None,RZ=None,Y_=None,fY=None,whichmodel=None,P_old=None,i
                 Y=Y / scaleY
 #       compute right-hand side with function values and zero
 
-            P=array([])
             for i in range(0,n_rhs):
-                rhs=concatenate_([fY[i,:],zeros_(1,n + 1)], axis=1)
-                mualpha=(numpy.linalg.solve(RZ,(QZ.T.dot(rhs.T)))).T
+                rhs=concatenate_([fY[[i],:],zeros_(1,n + 1)], axis=1)
+                mualpha=numpy.linalg.solve(RZ,(QZ.T.dot(rhs.T)))
 #                 constant and linear part of P
-                P_i[0:n + 1]=mualpha[p1:p1 + n + 1].T
+                P[i,0:n + 1]=mualpha[p1:p1 + n + 1,0]
 #                 quadratic part of P
                 M=bcdfo_evalZ_(Y,q).T
-                P_i[n + 1:q]=M[:,n + 1:q].T.dot(mualpha[0:p1].T)
-                P=concatenate_([P, P_i])
+                P[i,n + 1:q]=M[:,n + 1:q].T.dot(mualpha[0:p1,0])
     elif (whichmodel == 2):
         P=(QZ.dot((numpy.linalg.solve(RZ.T,fY.T)))).T
     elif (whichmodel == 3):
diff --git a/sqpdfo/bcdfo_evalL.py b/sqpdfo/bcdfo_evalL.py
index 9bcad8a..fb2fd6c 100644
--- a/sqpdfo/bcdfo_evalL.py
+++ b/sqpdfo/bcdfo_evalL.py
@@ -3,6 +3,7 @@
 from sqpdfo.runtime import *
 from sqpdfo.bcdfo_evalP import bcdfo_evalP_
 import numpy
+from sqpdfo.bcdfo_evalZ import bcdfo_evalZ_
 from copy import copy
     
 def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,whichmodel=None,scale=None,shift_Y=None,*args,**kwargs):
@@ -55,7 +56,7 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
     n,p1=size_(Y,nargout=2)
     I=eye_(p1)
     lc=length_(choice_set)
-    q=((n + 1) * (n + 2)) / 2
+    q=int(((n + 1) * (n + 2)) / 2)
     values=zeros_(p1,1)
     if (whichmodel == 3 and p1 < q):
 #     for underdetermined regression model use min l2-norm model
@@ -67,7 +68,7 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
         if (p1 == n + 1 or p1 == q):
 #        evaluate Minimum L2 norm Lagrange polynomial (p1 == n+1 or p1 == q)
 
-            values[choice_set]=bcdfo_evalP_(I[choice_set,:] .dot( (QZ / RZ.T)),x,xbase,scale,shift_Y)
+            values[choice_set]=bcdfo_evalP_(I[choice_set,:] .dot( QZ.dot(numpy.linalg.inv(RZ.T))),x,xbase,scale,shift_Y)
         else:
 #       evaluate Minimum Frobenius norm Lagrange polynomial (p1 <= q)
 #
@@ -83,10 +84,10 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
             M=bcdfo_evalZ_(Y,q).T
             MQ=M[:,n + 1:q]
             if (shift_Y):
-                phi=bcdfo_evalZ_((x - xbase) * scale[1],q)
+                phi=bcdfo_evalZ_((x - xbase.reshape(-1,1)) * scale[1],q)
             else:
                 phi=bcdfo_evalZ_(x,q)
-            values[choice_set]=concatenate_([  I[choice_set,:],  zeros_(lc,n + 1).dot(QZ .dot(numpy.linalg.solve(RZ.T,concatenate_([MQ.dot(phi[n + 1:q]),phi[0:n + 1]]))))],axis=1)
+            values[choice_set]=concatenate_([I[choice_set,:],zeros_(lc,n + 1)],axis=1).dot(QZ.dot(numpy.linalg.solve(RZ.T,concatenate_([MQ.dot(phi[n + 1:q]),phi[0:n + 1]]))))
     elif (whichmodel == 2):
 #    evaluate Minimum L2 norm Lagrange polynomial (p1 <= q)
         if (p1 < q):
-- 
2.43.0


From 4c0f2d354cd43415863e0ea6ec3888d66ce5befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 12/42] fix: default value of options.bfgs_restart

---
 sqpdfo/sqpdfo_options.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqpdfo/sqpdfo_options.py b/sqpdfo/sqpdfo_options.py
index 15f7730..df9714e 100644
--- a/sqpdfo/sqpdfo_options.py
+++ b/sqpdfo/sqpdfo_options.py
@@ -144,6 +144,9 @@ def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
     else:
         options.hess_approx = values.model  # default value
 
+    if not isfield_(options, 'bfgs_restart'):
+        options.bfgs_restart = 0  # default value (no restart)
+
     if isfield_(options, 'whichmodel'):
         if 'subbasis' == options.whichmodel.lower().replace(" ", ""):
             options.whichmodel = values.subbasis
-- 
2.43.0


From 88a9121552a52064e83b3265efee0b1892ecaf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 13/42] fix: verbose printout of unconstrained problems

---
 sqpdfo/sqpdfo_prelim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 8ed220c..83d2d67 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -547,14 +547,14 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
             fprintf_(options.fout,'  . gradient of the Lagrangian      %8.2e\n'%(options.tol_grad))
             fprintf_(options.fout,'  . feasibility                     %8.2e\n'%(options.tol_feas))
         else:
-            fprintf_(options.fout,'  . gradient of the cost function   %8.2e\n'%(options.tol[0]))
+            fprintf_(options.fout,'  . gradient of the cost function   %8.2e\n'%(options.tol_grad))
         fprintf_(options.fout,'  counters:\n')
         fprintf_(options.fout,'  . max iterations                  %4i\n'%(options.miter))
         fprintf_(options.fout,'  . max function evaluations        %4i\n'%(options.msimul))
         fprintf_(options.fout,'  algorithm:\n')
         fprintf_(options.fout,'  . globalization by trust regions\n')
         fprintf_(options.fout,'  various input/initial values:\n')
-        if  (nb + mi + me == 0) and (options.df1 > 0) and (info.f > 0):
+        if  (nb + mi + me == 0) and isfield_(options,'df1') and (options.df1 > 0) and (info.f > 0):
             fprintf_(options.fout,'  . expected initial decrease       %8.2e\n'%(options.df1 * info.f))
         if nb + mi > 0:
             fprintf_(options.fout,'  . infinite bound threshold        %8.2e\n'%(options.inf))
-- 
2.43.0


From 1ffe44d07198d552e98e297c133a10918eb28eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 14/42] fix: verbosity does not change the poisedness used in
 the stopping test

---
 sqpdfo/sqpdfo_main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index bb21086..c6c9e27 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -480,11 +480,11 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                           ', Y_radius = ',str(Y_radius))
                     
             if (options.verbose >= 4):
-                poised,Y_radius=\
+                poisedY,_=\
                 bcdfo_poisedness_Y_(QZ,RZ,Y,eps_L,x,lSolver,whichmodel,\
                 hardcons,lb,ub,indfree,stratLam,scale,shift_Y,nargout=2)
                 
-                disp_(' poisedness(Y) = ',str(poised))
+                disp_(' poisedness(Y) = ',str(poisedY))
                 
             poised_model=1
 
-- 
2.43.0


From 1098e5c59b34ad504da642704927d4f4c60fb041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 15/42] fix: constraint values of the trial point when all
 constraint values are zero

---
 sqpdfo/sqpdfo_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index c6c9e27..8c37f8b 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -799,7 +799,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
         
             fxplus=copy(fX[m])
             
-            if ceX.any():
+            if me > 0:
                 ceX[ceX>=1e25] = 10*max_(ceX[ceX<1e25])
                 ceX[ceX<=-1e25] = 10*min_(ceX[ceX>-1e25])
                 ceplus = copy(array([ceX[:,m]]).T)
-- 
2.43.0


From ad976ed7cf6ede6a87f61101f90cf5c2287fd9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 16/42] fix: restart of the BFGS approximation
 (options.bfgs_restart > 0)

---
 sqpdfo/sqpdfo_computeHessian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_computeHessian.py b/sqpdfo/sqpdfo_computeHessian.py
index 196a45e..821d1a1 100644
--- a/sqpdfo/sqpdfo_computeHessian.py
+++ b/sqpdfo/sqpdfo_computeHessian.py
@@ -56,7 +56,7 @@ def sqpdfo_computeHessian_(simul=None,x=None,null_step=None,constrained_pbl=None
             # compute the BFGS approximation of the Hessian of the Lagrangian 
             # (with Powell corrections)
             if options.bfgs_restart > 0 \
-            and mod_(info.nsimul[1],options.bfgs_restart) == 0:
+            and info.nsimul[1] % options.bfgs_restart == 0:
                 szM = size_(M)
                 M=eye_(szM[0])
                 pc=2.0
-- 
2.43.0


From acd46d3e72fdaf01b6025499379361fdd857644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 17/42] fix: default bounds when x0 is a column vector

---
 sqpdfo/sqpdfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index abd02b6..837fc82 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -110,11 +110,11 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     elif not isinstance(x0, np.ndarray):
         x0 = array([x0])
     if lb is None:
-        lb = -1e20 * np.ones_like(x0).T
+        lb = -1e20 * np.ones((x0.size, 1))
     elif not isinstance(lb, np.ndarray):
         lb = array([lb]).T
     if ub is None:
-        ub = 1e20 * np.ones_like(x0).T
+        ub = 1e20 * np.ones((x0.size, 1))
     elif not isinstance(ub, np.ndarray):
         ub = array([ub]).T
 
-- 
2.43.0


From 799d68d35c7c9d0c0eec09569330e3b21ee41390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 18/42] fix: optimality measures of the final iterate when a
 budget is exhausted

---
 sqpdfo/sqpdfo_main.py | 50 +++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 8c37f8b..5965a3f 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -213,31 +213,6 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
     
     while 1:
         
-        # Stop on counter.
-
-        if info.niter >= options.miter:
-            info.flag=values.stop_on_max_iter
-
-            # Final printout
-
-            sqpdfo_iter_printout_(info,old_delta,norms,pc,itype,values,nb,mi,\
-                                 options,constrained_pbl,merit)
-            return nit,i_xbest,x,fx,m,X,fX,ciX,ceX,ind_Y,delta,eps_current,\
-            cur_degree,fcmodel,gx,normgx,vstatus,xstatus,sstatus,dstatus,M,\
-            ndummyY,sspace_save,xspace_save,msg,CNTsin,neval,lm,info
-            
-        if info.nsimul[1] >= options.msimul:
-        
-            info.flag=values.stop_on_max_simul
-
-            # Final printout
-
-            sqpdfo_iter_printout_(info,old_delta,norms,pc,itype,values,nb,mi,\
-                                 options,constrained_pbl,merit)
-            return nit,i_xbest,x,fx,m,X,fX,ciX,ceX,ind_Y,delta,eps_current,\
-            cur_degree,fcmodel,gx,normgx,vstatus,xstatus,sstatus,dstatus,M,\
-            ndummyY,sspace_save,xspace_save,msg,CNTsin,neval,lm,info
-            
         #   if radius_has_been_rejected == false:
 
         xk=copy(x)
@@ -270,6 +245,31 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
         info.feasn=norm_(feas,inf)
         info.compl=norm_(comp,inf)
         
+        # Stop on counter.
+
+        if info.niter >= options.miter:
+            info.flag=values.stop_on_max_iter
+
+            # Final printout
+
+            sqpdfo_iter_printout_(info,old_delta,norms,pc,itype,values,nb,mi,\
+                                 options,constrained_pbl,merit)
+            return nit,i_xbest,x,fx,m,X,fX,ciX,ceX,ind_Y,delta,eps_current,\
+            cur_degree,fcmodel,gx,normgx,vstatus,xstatus,sstatus,dstatus,M,\
+            ndummyY,sspace_save,xspace_save,msg,CNTsin,neval,lm,info
+            
+        if info.nsimul[1] >= options.msimul:
+        
+            info.flag=values.stop_on_max_simul
+
+            # Final printout
+
+            sqpdfo_iter_printout_(info,old_delta,norms,pc,itype,values,nb,mi,\
+                                 options,constrained_pbl,merit)
+            return nit,i_xbest,x,fx,m,X,fX,ciX,ceX,ind_Y,delta,eps_current,\
+            cur_degree,fcmodel,gx,normgx,vstatus,xstatus,sstatus,dstatus,M,\
+            ndummyY,sspace_save,xspace_save,msg,CNTsin,neval,lm,info
+            
         if (info.niter > 0) and (options.verbose >= 3):
         
             fprintf_(options.fout,'\nOptimality:\n')
-- 
2.43.0


From 8635f029a62a546c2fbba08763dbc3f1af699b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 19/42] fix: bounds given as one-dimensional arrays

---
 sqpdfo/sqpdfo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 837fc82..2fd632d 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -113,10 +113,14 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         lb = -1e20 * np.ones((x0.size, 1))
     elif not isinstance(lb, np.ndarray):
         lb = array([lb]).T
+    else:
+        lb = lb.reshape(-1, 1)
     if ub is None:
         ub = 1e20 * np.ones((x0.size, 1))
     elif not isinstance(ub, np.ndarray):
         ub = array([ub]).T
+    else:
+        ub = ub.reshape(-1, 1)
 
 	# check existence of options
 
-- 
2.43.0


From 1ed46af2ade450c2fa3b661a653253084b7959f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 20/42] fix: lower of the two boundary points in the hard case
 of the trust-region solver

---
 sqpdfo/bcdfo_solve_TR_MS.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index ff059a7..4fbc8cd 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -306,6 +306,15 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * float(V[:,imu].dot( scri )[0]),float(nscri ** 2 - Delta ** 2)])
         root=max(p2.r)
         s=scri + root * V[:,imu].reshape(-1,1)
+        
+        #  Both intersections with the sphere are candidates: take the second
+        #  one if its model value is clearly lower.
+        
+        s2=scri + min(p2.r) * V[:,imu].reshape(-1,1)
+        q1=float(g.T.dot(s) + 0.5 * s.T.dot(H.dot(s)))
+        q2=float(g.T.dot(s2) + 0.5 * s2.T.dot(H.dot(s2)))
+        if q1 - q2 > 1e-10 * abs(q1):
+            s=s2
     else:
         s=Delta * scri / nscri
         
-- 
2.43.0


From 2d00ff088f79c254e309374c4303d7571aadf7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 21/42] fix: bounds hit by the maximum feasible step of blls
 become active

---
 sqpdfo/blls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/blls.py b/sqpdfo/blls.py
index 078046d..e5026be 100644
--- a/sqpdfo/blls.py
+++ b/sqpdfo/blls.py
@@ -343,8 +343,8 @@ def blls_(A=None,b=None,lb=None,ub=None,*args,**kwargs):
                        # the current active set.
                         natlb=free[find_(abs(ssub[free] - lb[free]) <= epsfeas)].reshape(-1)
                         natub=free[find_(abs(ssub[free] - ub[free]) <= epsfeas)].reshape(-1)
-                        atlb=append(atlb,natlbt)
-                        atub=append(atub,natubt)
+                        atlb=append(atlb,natlb)
+                        atub=append(atub,natub)
                         atb=append(atlb,atub)
                         free=copy(inds)
                         free = np.delete(free, atb)
-- 
2.43.0


From 294d90f33f373e7926abe70023a54a7eb105ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 22/42] fix: blls does not stop at a vertex that is not optimal

---
 sqpdfo/blls.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqpdfo/blls.py b/sqpdfo/blls.py
index e5026be..c2a2602 100644
--- a/sqpdfo/blls.py
+++ b/sqpdfo/blls.py
@@ -193,13 +193,13 @@ def blls_(A=None,b=None,lb=None,ub=None,*args,**kwargs):
    ##########################################################################
    #       Beyond the Cauchy point: nested subspace minimization            #
    ##########################################################################
-   # The Cauchy point is optimal for the problem because either there is no 
-   # free variable left (which implies opt = 0) or because the residual is 
-   # zero: terminate as s is the problem's solution.
+   # No nested subspace search if there is no free variable left or if the
+   # residual is zero.  The point may be non optimal in the first case (the
+   # bounds active at the Cauchy point need not be those of the solution).
         if (lfree == 0 or resn <= epsres):
             if (verbose > 1):
                 fprintf_('   No nested subspace search\n')
-            opt=0  #  Forces termination
+            opt=norm_(min_(max_(s - A.T.dot(res),lb),ub) - s)
       # There are free variables at the Cauchy point: start a nested 
       # subspace search.
         else: # ( lfree > 0 && resn > epsres )
-- 
2.43.0


From 1c2e12e44450f65c54314e19842fe6d7c591bcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:48 +0000
Subject: [PATCH 23/42] fix: trust-region solver follows negative curvature
 when the gradient is zero

---
 sqpdfo/bcdfo_solve_TR_MS.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index 4fbc8cd..535ff30 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -161,9 +161,20 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         #    sfound = 1;
         #    norms  = norm( s );
         #    lambda = -mu;
-        sfound=1
+        #  A zero gradient does not make the origin a minimiser if H has a
+        #  direction of negative curvature.
+        D,V=numpy.linalg.eigh(0.5 * (H + H.T))
+        neigd=neigd + 1
+        if D[0] < - epsilon * max_(1,Hnorminf):
+            s=Delta * V[:,[0]]
+            if float(g.T.dot(s)) > 0:
+                s=- s
+            _lambda=- D[0]
+            w=H.dot(s)
+            value=g.T.dot(s) + 0.5 * s.T.dot(w)
+            gplus=g + w
+            hardcase=1
         norms=norm_(s)
-        _lambda=0
         
         return s,_lambda,norms,value,gplus,nfact,neigd,msg,hardcase
         
-- 
2.43.0


From 6f0448ef6865516c76616f98b65e845b49674193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 24/42] fix: set repair reports the poisedness of a set it
 leaves unchanged

bcdfo_repair_Y returned a poisedness of 0 whenever no point needed replacing,
so the gradient error used in the convergence test after an improvement step
was 0 whatever the radius of the set, and convergence could be declared with
an interpolation set much larger than the requested accuracy allows.
---
 sqpdfo/bcdfo_repair_Y.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sqpdfo/bcdfo_repair_Y.py b/sqpdfo/bcdfo_repair_Y.py
index 838e918..74451bf 100644
--- a/sqpdfo/bcdfo_repair_Y.py
+++ b/sqpdfo/bcdfo_repair_Y.py
@@ -257,8 +257,6 @@ def bcdfo_repair_Y_(QZ=None,RZ=None,Y=None,Delta=None,farfact=None,farthr=None,c
                 poised,Y_radius=bcdfo_poisedness_Y_(QZ,RZ,Y,eps_L,xbase,lSolver,whichmodel,hardcons,xl,xu,indfree,stratLam,scale,shift_Y,nargout=2)
                 disp_('after everything: poisedness(Y) = ',str(poised),' Y_radius  = ',str(Y_radius))
                 disp_('--- exit 1 bcdfo_repair_Y in round k=',str(k),' ---')
-            if (isempty_(replaced)):
-                maximprove=0
             return QZ,RZ,Y,replaced,maximprove,Y_radius,xbase,scale
    #  Perform the best replacement.
         if (verbose):
-- 
2.43.0


From 2c8dc05a02a1c9f985ab32b29810f6c65d6dd97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 25/42] fix: an interpolation set with dependent points is not
 poised and gets repaired

When points of the set (nearly) coincide, for example after steps that change
only the slack variables, the factorization is regularized and the Lagrange
polynomials do not interpolate any more; their maximum is small, so such a set
was reported as poised, was never repaired, and convergence was declared with
meaningless model gradients. The same holds for a set in a hyperplane, which
says nothing about the derivatives across it.
---
 sqpdfo/bcdfo_poisedness_Y.py | 38 ++++++++++++++++++++++++++++++++++++
 sqpdfo/bcdfo_repair_Y.py     |  8 ++++++++
 2 files changed, 46 insertions(+)

diff --git a/sqpdfo/bcdfo_poisedness_Y.py b/sqpdfo/bcdfo_poisedness_Y.py
index 4911904..8bd5a42 100644
--- a/sqpdfo/bcdfo_poisedness_Y.py
+++ b/sqpdfo/bcdfo_poisedness_Y.py
@@ -2,6 +2,41 @@
 
 from sqpdfo.runtime import *
 from sqpdfo.bcdfo_find_new_yj import bcdfo_find_new_yj_
+from sqpdfo.bcdfo_evalL import bcdfo_evalL_
+from numpy import arange, inf
+
+
+def bcdfo_dependent_points_(QZ,RZ,Y,xbase,whichmodel,scale,shift_Y):
+
+    """
+   Returns the indices of the points of Y which are (nearly) dependent on the
+   others: those that add nothing to the space spanned by the other points when
+   this is not the whole space, and those at which the Lagrange polynomials do
+   not take the values 0 and 1 because the factorization given by QZ, RZ had to
+   be regularized.
+    """
+    n,p1=size_(Y,nargout=2)
+    dependent=[]
+    B=zeros_(n,0)
+    D=Y - Y[:,[0]]
+    Y_radius=max(norm_(D[:,j]) for j in range(0,p1))
+    for j in range(1,p1):
+        d=D[:,[j]] - B.dot(B.T.dot(D[:,[j]]))
+        d=d - B.dot(B.T.dot(d))
+        if (norm_(d) > 1e-8 * Y_radius):
+            B=concatenate_([B,d / norm_(d)],axis=1)
+        else:
+            dependent.append(j)
+    if (size_(B,2) == n):
+        dependent=[]
+    if (whichmodel == 3 and p1 > ((n + 1) * (n + 2)) / 2):
+        return dependent     # regression polynomials do not interpolate
+    for j in range(0,p1):
+        L=bcdfo_evalL_(QZ,RZ,Y,arange(0,p1),Y[:,[j]],xbase,whichmodel,scale,shift_Y)
+        L[j]=L[j] - 1
+        if not (norm_(L,inf) <= 1e-3):
+            dependent.append(j)
+    return dependent
 
     
 def bcdfo_poisedness_Y_(QZ=None,RZ=None,Y=None,eps_L=None,xbase=None,lSolver=None,whichmodel=None,hardcons=None,xl=None,xu=None,indfree=None,stratLam=None,scale=None,shift_Y=None,*args,**kwargs):
@@ -49,6 +84,9 @@ def bcdfo_poisedness_Y_(QZ=None,RZ=None,Y=None,eps_L=None,xbase=None,lSolver=Non
 #  Loop on all the possible replacements to find the best one.
     for j in range(1,p1): #it is indexed range(2,p1) in matlab
         Y_radius=max_(Y_radius,norm_(Y[:,j] - Y[:,0]))
+#  Dependent points: the set is not poised.
+    if bcdfo_dependent_points_(QZ,RZ,Y,xbase,whichmodel,scale,shift_Y):
+        return inf,Y_radius
     for j in range(1,p1): #it is indexed range(2,p1) in matlab
         if (hardcons == 1):
             y,improvement, msgTR=bcdfo_find_new_yj_bc_(QZ,RZ,Y,j,Y_radius,eps_L,xbase,lSolver,whichmodel,xl,xu,indfree,stratLam,scale,shift_Y,nargout=2)
diff --git a/sqpdfo/bcdfo_repair_Y.py b/sqpdfo/bcdfo_repair_Y.py
index 74451bf..9bc0d4a 100644
--- a/sqpdfo/bcdfo_repair_Y.py
+++ b/sqpdfo/bcdfo_repair_Y.py
@@ -3,6 +3,8 @@
 from sqpdfo.runtime import *
 from sqpdfo.bcdfo_find_new_yj import bcdfo_find_new_yj_
 from sqpdfo.bcdfo_replace_in_Y import bcdfo_replace_in_Y_
+from sqpdfo.bcdfo_poisedness_Y import bcdfo_dependent_points_
+from numpy import arange, cos, inf
 from copy import copy
 
 
@@ -229,6 +231,7 @@ def bcdfo_repair_Y_(QZ=None,RZ=None,Y=None,Delta=None,farfact=None,farthr=None,c
 
     for k in range(1,max_improve_loops+1):
         maximprove=0
+        dependent=bcdfo_dependent_points_(QZ,RZ,Y,xbase,whichmodel,scale,shift_Y)
        #  Loop on all the possible replacements to find the best one.
 
         for j in range(1,p1): #it is indexed 2:p1 in matlab
@@ -236,6 +239,11 @@ def bcdfo_repair_Y_(QZ=None,RZ=None,Y=None,Delta=None,farfact=None,farthr=None,c
                 y,improvement, msgTR=bcdfo_find_new_yj_bc_(QZ,RZ,Y,j,Delta,eps_L,xbase,lSolver,whichmodel,xl,xu,indfree,stratLam,scale,shift_Y,nargout=2)
             else:
                 y,improvement, msgTR=bcdfo_find_new_yj_(QZ,RZ,Y,j,Delta,eps_L,xbase,lSolver,whichmodel,scale,shift_Y,nargout=2)
+      #  The polynomial of a dependent point is meaningless: move the point to
+      #  a generic place in the ball.
+            if (j in dependent):
+                y=Y[:,[0]] + Delta / sqrt_(n) * cos((7 * j + k) * arange(1,n + 1)).reshape(-1,1)
+                improvement=inf
       #  Remember the current polynomial value, index and replacement point is
       #  this is the best so far         
             if (verbose > 1):
-- 
2.43.0


From 0d8ead545b3369938fd57e6b260ab01015197348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 26/42] fix: multipliers with active sign conditions are those
 of least squares

sqpdfo_compute_multiplier documents min ||g+A'*lm|| subject to bounds on lm but
minimized the residual of the normal equations, which has another minimizer as
soon as a bound multiplier is at its bound 0.
---
 sqpdfo/sqpdfo_compute_multiplier.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqpdfo/sqpdfo_compute_multiplier.py b/sqpdfo/sqpdfo_compute_multiplier.py
index 8328922..772cbbb 100644
--- a/sqpdfo/sqpdfo_compute_multiplier.py
+++ b/sqpdfo/sqpdfo_compute_multiplier.py
@@ -163,6 +163,11 @@ def sqpdfo_compute_multiplier_(x=None,lb=None,ub=None,info_=None,\
             
     if not isempty_(ifree[ifree > 0]):
         sn, rn, op, exitc = blls_(AAn, - Agn, lon, upn, nargout=4)
+        # with a multiplier at its bound, the minimizer of ||AAn*lm+Agn|| is not the
+        # one of ||g+A'*lm||
+        if any_(sn <= lon) or any_(sn >= upn):
+            An = A[ifree.reshape(-1) > 0,:]
+            sn, rn, op, exitc = blls_(An.T, - glocal, lon, upn, nargout=4)
         I = eye_(length_(lo))
         lm = np.delete(I, find_(ifree <= 0), 1).dot(sn)
     else:
-- 
2.43.0


From 70bdc196c0e779e9b8872b62550a44474af0e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 27/42] fix: values of the user functions that are no floats
 (integers crashed, non-numbers raised)

---
 sqpdfo/sqpdfo_func.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sqpdfo/sqpdfo_func.py b/sqpdfo/sqpdfo_func.py
index 3868830..25b61de 100644
--- a/sqpdfo/sqpdfo_func.py
+++ b/sqpdfo/sqpdfo_func.py
@@ -29,14 +29,13 @@ def sqpdfo_func_(x=None,*args,**kwargs):
     xc = copy(x.T)
     xc = list(xc[0])
     try:
-        f = ffunc(xc)
+        f = float(ffunc(xc))
     except:
         f = np.inf
         msgf = 1
     if cfunc != '':
         try:
-            c = cfunc(xc)
-            c = array(c).reshape(-1, 1)
+            c = array(cfunc(xc), dtype=float).reshape(-1, 1)
         except:
             msgc = 1
     if msgf > 0 or msgc > 0:
-- 
2.43.0


From 43437af81eae182fc24de7ca76b4aec03a9f040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 28/42] fix: a start vector of integers was truncated when
 moved inside the bounds

---
 sqpdfo/sqpdfo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 2fd632d..3fe496d 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -109,6 +109,7 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         return x, lm, info
     elif not isinstance(x0, np.ndarray):
         x0 = array([x0])
+    x0 = x0.astype(float)
     if lb is None:
         lb = -1e20 * np.ones((x0.size, 1))
     elif not isinstance(lb, np.ndarray):
-- 
2.43.0


From 65b5f3c4e81f6c4d3004af8f53ff3de2306c92db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:29 +0000
Subject: [PATCH 29/42] fix: trust-region radius grew beyond its maximum and
 was then cut by a successful step

---
 sqpdfo/sqpdfo_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 5965a3f..8c4b0de 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -1051,7 +1051,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                     else:
                         if rho >= eta1:
                             if (active_r or active_t):
-                                delta=delta * tau2
+                                delta=min_(delta * tau2,Deltamax)
                             else:
                                 delta=min_(max_(tau2 * norms,delta),Deltamax)
                                 
-- 
2.43.0


From e5488ca1107cb4918737d83c6622c6e5e74f65b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 30/42] fix: rejected steps repeated at one small radius until
 the evaluation budget was gone

---
 sqpdfo/sqpdfo_main.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 8c4b0de..eee30a0 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -705,6 +705,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
         # solve trust-region subproblem in delta
         
         old_delta=copy(delta)
+        set_improved=(itype=='impr')
 
         xnew,deltaTR,rpred,active_r,active_t,lm_computed,lm,info,slplus=\
         sqpdfo_solve_TR_bc_(func,x,lb,ub,delta,mi,me,M,\
@@ -1203,6 +1204,15 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
 
                         FPlength=factor_FPU * (1 + eps_TR) * delta
                         
+                        #  A rejected point which is a far one again, which is already
+                        #  in the set, or which comes from a set that has just been
+                        #  improved, leads to the same step and point again unless
+                        #  the radius is reduced.
+
+                        repeats=norm_(s) > FPlength or set_improved or \
+                                any([norm_(Y[:,[j]] - xplus) <= 1e-8 * norm_(s) \
+                                for j in range(0,cur_degree)])
+                        
                         #  Replace a far interpolation point.
 
                         if (rho >= eta1):
@@ -1283,7 +1293,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                             else:
                                 #  Shrink trust region in unsuccessful iteration
 
-                                if (shrink_Delta == 1 and delta > epsilon):
+                                if (shrink_Delta == 1 and (delta > epsilon or repeats)):
                                 
                                     #delta = gamma2 * norms;
                                     delta=gamma2 * delta
@@ -1407,7 +1417,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                 else:
                                     #  Shrink trust region in unsuccessful iteration
 
-                                    if (shrink_Delta == 1 and delta > epsilon):
+                                    if (shrink_Delta == 1 and (delta > epsilon or repeats)):
                                         #delta = gamma2 * norms;
                                         delta=gamma2 * delta
                                         
-- 
2.43.0


From 915ddd7d45b04e5e3639f333bd5040b2e6c76c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:53 +0000
Subject: [PATCH 31/42] fix: functions given as methods, partials or callable
 objects ended the interpreter

---
 sqpdfo/sqpdfo.py                  | 10 ++++++++--
 sqpdfo/sqpdfo_global_variables.py |  8 ++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 3fe496d..682016a 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -89,16 +89,22 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     if mi is None:
         mi = 0
 
-    if func_f == None:
+    if func_f is None:
         print('Error: Definition of the objective function (in func_f()) is missing !')
         return x, lm, info
+    elif not callable(func_f):
+        print('Error: func_f is not a function !')
+        return x, lm, info
     else:
         glob.set_filename_f(func_f)
-    if func_c == None:
+    if func_c is None or (isinstance(func_c, str) and func_c == ''):
         glob.set_filename_cons('')
         if me+mi>0:
             print('Error: me+mi > 0 but no function handle func_c() for constraints is given!')
             return x, lm, info
+    elif not callable(func_c):
+        print('Error: func_c is not a function !')
+        return x, lm, info
     else:
         glob.set_filename_cons(func_c)
 
diff --git a/sqpdfo/sqpdfo_global_variables.py b/sqpdfo/sqpdfo_global_variables.py
index 51e44fc..cc4e77e 100644
--- a/sqpdfo/sqpdfo_global_variables.py
+++ b/sqpdfo/sqpdfo_global_variables.py
@@ -82,19 +82,19 @@ def set_filename_f(value):
     global filename_f
     if value is None:
         sys.exit('Error: Definition of the objective function in func() is missing !')
-    elif isinstance(value, types.FunctionType):
+    elif callable(value):
         filename_f = value
     else:
-        sys.exit('Error: function handle for the objective is not of type function !')
+        sys.exit('Error: function handle for the objective is not callable !')
 
 def set_filename_cons(value):
     global filename_cons
-    if isinstance(value, types.FunctionType):
+    if callable(value):
         filename_cons = value
     elif value is '' or value is None:
         filename_cons = ''
     else:
-        sys.exit('Error: function handle for the constraints is not of type function !')
+        sys.exit('Error: function handle for the constraints is not callable !')
 
 def set_nbr_slacks(value):
     global nbr_slacks
-- 
2.43.0


From bde699dad6ac0b9ba691e82a0ef921a29ab3faa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:10 +0000
Subject: [PATCH 32/42] fix: nested lists as start or bounds and bounds of the
 wrong number raised exceptions

---
 sqpdfo/sqpdfo.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 682016a..1de762f 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -113,21 +113,18 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     if x0 is None:
         print('Error: No starting values of x given !')
         return x, lm, info
-    elif not isinstance(x0, np.ndarray):
-        x0 = array([x0])
-    x0 = x0.astype(float)
-    if lb is None:
+    x0 = np.atleast_2d(np.array(x0, dtype=float))
+    if lb is None or np.size(lb) == 0:
         lb = -1e20 * np.ones((x0.size, 1))
-    elif not isinstance(lb, np.ndarray):
-        lb = array([lb]).T
     else:
-        lb = lb.reshape(-1, 1)
-    if ub is None:
+        lb = np.array(lb, dtype=float).reshape(-1, 1)
+    if ub is None or np.size(ub) == 0:
         ub = 1e20 * np.ones((x0.size, 1))
-    elif not isinstance(ub, np.ndarray):
-        ub = array([ub]).T
     else:
-        ub = ub.reshape(-1, 1)
+        ub = np.array(ub, dtype=float).reshape(-1, 1)
+    if lb.size != x0.size or ub.size != x0.size:
+        print('Error: The number of lower or upper bounds is not the number of variables !')
+        return x, lm, info
 
 	# check existence of options
 
-- 
2.43.0


From c52fa61ffa86b073bc57e854ae12a16f21e2d0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 33/42] fix: an objective that overwrote its argument changed
 the point at which the constraints were evaluated

---
 sqpdfo/sqpdfo_func.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_func.py b/sqpdfo/sqpdfo_func.py
index 25b61de..a0ff75d 100644
--- a/sqpdfo/sqpdfo_func.py
+++ b/sqpdfo/sqpdfo_func.py
@@ -29,13 +29,13 @@ def sqpdfo_func_(x=None,*args,**kwargs):
     xc = copy(x.T)
     xc = list(xc[0])
     try:
-        f = float(ffunc(xc))
+        f = float(ffunc(list(xc)))
     except:
         f = np.inf
         msgf = 1
     if cfunc != '':
         try:
-            c = array(cfunc(xc), dtype=float).reshape(-1, 1)
+            c = array(cfunc(list(xc)), dtype=float).reshape(-1, 1)
         except:
             msgc = 1
     if msgf > 0 or msgc > 0:
-- 
2.43.0


From 3a02bad488932d80e2358911858656840213c83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 34/42] fix: runs started inside a user function or in another
 thread changed the current run

---
 sqpdfo/sqpdfo_func.py             |  3 ++
 sqpdfo/sqpdfo_global_variables.py | 46 +++++++++++++++++--------------
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/sqpdfo/sqpdfo_func.py b/sqpdfo/sqpdfo_func.py
index a0ff75d..0fb9f8a 100644
--- a/sqpdfo/sqpdfo_func.py
+++ b/sqpdfo/sqpdfo_func.py
@@ -28,6 +28,8 @@ def sqpdfo_func_(x=None,*args,**kwargs):
 
     xc = copy(x.T)
     xc = list(xc[0])
+    # (the user functions may start runs of their own)
+    state = glob.get_run_state()
     try:
         f = float(ffunc(list(xc)))
     except:
@@ -38,6 +40,7 @@ def sqpdfo_func_(x=None,*args,**kwargs):
             c = array(cfunc(list(xc)), dtype=float).reshape(-1, 1)
         except:
             msgc = 1
+    glob.set_run_state(state)
     if msgf > 0 or msgc > 0:
         msg = 'Error: error during calculating f (and/or c) in '
         msg = msg + 'user-defined problem !'
diff --git a/sqpdfo/sqpdfo_global_variables.py b/sqpdfo/sqpdfo_global_variables.py
index cc4e77e..ad639d2 100644
--- a/sqpdfo/sqpdfo_global_variables.py
+++ b/sqpdfo/sqpdfo_global_variables.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 import sys
 import types
+import threading
 
 """
 This file is used to set and get the global variables used in the SQPDFO algorithm.
@@ -28,14 +29,24 @@ class sqpdfo_global_variables:
     check_condition = 1  # Check condition of the interpolation matrix regularly
     global simul_not_initialized
     simul_not_initialized = 1  # Initial value
-    global filename_f
+
+
+class sqpdfo_run_state(threading.local):
+    # what belongs to the current run (each thread has its own run)
     filename_f = None
-    global filename_cons
     filename_cons = None
-    global nbr_slacks
     nbr_slacks = 0
-    global slacks
     slacks = None
+    iter = 0
+
+_run = sqpdfo_run_state()
+
+def get_run_state():
+    return dict(_run.__dict__)
+
+def set_run_state(state):
+    _run.__dict__.clear()
+    _run.__dict__.update(state)
 
 def set_prob_cuter(prob_cuter, params):
     global cproblem
@@ -71,38 +82,33 @@ def set_foutxy(value):
     foutxy=value
     
 def set_iter(value):
-    global _iter
-    _iter=value
+    _run.iter=value
     
 def set_check_condition(value):
     global check_condition
     check_condition=value
 
 def set_filename_f(value):
-    global filename_f
     if value is None:
         sys.exit('Error: Definition of the objective function in func() is missing !')
     elif callable(value):
-        filename_f = value
+        _run.filename_f = value
     else:
         sys.exit('Error: function handle for the objective is not callable !')
 
 def set_filename_cons(value):
-    global filename_cons
     if callable(value):
-        filename_cons = value
+        _run.filename_cons = value
     elif value is '' or value is None:
-        filename_cons = ''
+        _run.filename_cons = ''
     else:
         sys.exit('Error: function handle for the constraints is not callable !')
 
 def set_nbr_slacks(value):
-    global nbr_slacks
-    nbr_slacks = value
+    _run.nbr_slacks = value
     
 def set_slacks(value):
-    global slacks
-    slacks = value
+    _run.slacks = value
 
 def get_prob_cuter():
     return cproblem
@@ -120,19 +126,19 @@ def get_foutxy():
     return foutxy
     
 def get_iter():
-    return _iter
+    return _run.iter
     
 def get_check_condition():
     return check_condition
 
 def get_filename_f():
-    return filename_f
+    return _run.filename_f
 
 def get_filename_cons():
-    return filename_cons
+    return _run.filename_cons
     
 def get_nbr_slacks():
-    return nbr_slacks
+    return _run.nbr_slacks
     
 def get_slacks():
-    return slacks
+    return _run.slacks
-- 
2.43.0


From 28f8876bda68645575968a3af3f1faff0932558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:38 +0000
Subject: [PATCH 35/42] fix: a constraint function returning another number of
 values raised an exception

---
 sqpdfo/sqpdfo_augmX_evalf.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqpdfo/sqpdfo_augmX_evalf.py b/sqpdfo/sqpdfo_augmX_evalf.py
index d802a1e..1a30c8a 100644
--- a/sqpdfo/sqpdfo_augmX_evalf.py
+++ b/sqpdfo/sqpdfo_augmX_evalf.py
@@ -159,6 +159,13 @@ def sqpdfo_augmX_evalf_(f=None,y=None,m=None,X_=None,fX_=None,ciX_=None,ceX_=Non
         
         return X,fX,ciX,ceX,neval,xstatus,sstatus,dstatus,info,msg
         
+    if m > 0 and ce.size != (size_(ceX,1) if not isempty_(ceX) else 0):
+        if options.verbose:
+            fprintf_(options.fout,'### sqpdfo_augmX_evalf: the number of constraint values has changed\n\n')
+        info.flag=values.fail_on_simul
+        
+        return X,fX,ciX,ceX,neval,xstatus,sstatus,dstatus,info,msg
+
     #  Augment fX, ciX, and ceX with new function and constraint value
 
     try:
-- 
2.43.0


From 22e2e1a7b96e0125ad27999f0347d2a881a97722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 36/42] fix: options that are no numbers or no text raised
 exceptions, NaN was accepted

---
 sqpdfo/sqpdfo_options.py | 54 +++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/sqpdfo/sqpdfo_options.py b/sqpdfo/sqpdfo_options.py
index df9714e..c7cfe0f 100644
--- a/sqpdfo/sqpdfo_options.py
+++ b/sqpdfo/sqpdfo_options.py
@@ -6,6 +6,14 @@ from copy import copy
 from sqpdfo.sqpdfo_values import sqpdfoValues
 
 
+def isnumber_(value):
+    # a number other than NaN (or something that converts to one, but no text)
+    try:
+        return not isinstance(value, str) and float(value) == float(value)
+    except (TypeError, ValueError):
+        return False
+
+
 def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
     """
 # [info,options,values] = sqpdfo_options (info,options)
@@ -38,15 +46,15 @@ def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
         options.fout = 1  # default value
 
     if isfield_(options, 'verbose'):
-        if (options.verbose < 0) or (options.verbose > 6):
+        if not isnumber_(options.verbose) or (options.verbose < 0) or (options.verbose > 6):
             fprintf_(options.fout,
-                     '\n### sqpdfo_options: options.verbose = "%0i" and should be in [0,6], reset to 1\n\n' % (options.verbose))
+                     '\n### sqpdfo_options: options.verbose = "%s" and should be in [0,6], reset to 1\n\n' % (options.verbose))
             options.verbose = 1
     else:
         options.verbose = 1  # default value
 
     if isfield_(options, 'algo_descent'):
-        algo_descent_str = options.algo_descent.lower().replace(" ", "")
+        algo_descent_str = str(options.algo_descent).lower().replace(" ", "")
         if (algo_descent_str == 'powell'):
             options.algo_descent = values.powell
         elif (algo_descent_str == 'wolfe'):
@@ -61,43 +69,43 @@ def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
         options.algo_descent = values.powell  # default value
 
     if isfield_(options, 'dxmin'):
-        if (options.dxmin <= 0):
+        if not isnumber_(options.dxmin) or (options.dxmin <= 0):
             if options.verbose:
-                fprintf_(options.fout, '\n### sqpdfo_options: options.dxmin = %g must be > 0\n\n' % (options.dxmin))
+                fprintf_(options.fout, '\n### sqpdfo_options: options.dxmin = %s must be > 0\n\n' % (options.dxmin))
             info.flag = values.fail_on_argument
             return info, options, values
     else:
         options.dxmin = 1e-08  # default value
 
     if isfield_(options, 'inf'):
-        if options.inf <= 0:
+        if not isnumber_(options.inf) or options.inf <= 0:
             if options.verbose:
-                fprintf_('\n### sqpdfo_options: incorrect value of options.inf %g (should be > 0)\n\n' % (options.inf))
+                fprintf_('\n### sqpdfo_options: incorrect value of options.inf %s (should be > 0)\n\n' % (options.inf))
             info.flag = values.fail_on_argument
             return info, options, values
     else:
         options.inf = inf  # default value
 
     if isfield_(options, 'miter'):
-        if options.miter <= 0:
+        if not isnumber_(options.miter) or options.miter <= 0:
             if options.verbose:
-                fprintf_('\n### sqpdfo_options: incorrect value of options.miter %g (should be > 0)\n\n' % (options.miter))
+                fprintf_('\n### sqpdfo_options: incorrect value of options.miter %s (should be > 0)\n\n' % (options.miter))
             info.flag = values.fail_on_argument
             return info, options, values
     else:
         options.miter = 1000  # default value
 
     if isfield_(options,'msimul'):
-        if options.msimul <= 0:
+        if not isnumber_(options.msimul) or options.msimul <= 0:
            if options.verbose:
-              fprintf_('\n### sqpdfo_options: incorrect value of options.msimul %g (should be > 0)\n\n',options.msimul)
+              fprintf_('\n### sqpdfo_options: incorrect value of options.msimul %s (should be > 0)\n\n',options.msimul)
            info.flag = values.fail_on_argument;
            return info, options, values
     else:
         options.msimul = 1000  # default value
 
     if isfield_(options, 'tol_grad'):
-        if (options.tol_grad < 0):
+        if not isnumber_(options.tol_grad) or (options.tol_grad < 0):
             if options.verbose:
                 fprintf_('\n### sqpdfo_options: incorrect value of some options.tol_grad (should be > 0)\n\n')
             info.flag = values.fail_on_argument
@@ -108,7 +116,7 @@ def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
         options.tol_grad = 1e-5  # default value
 
     if isfield_(options, 'tol_feas'):
-        if (options.tol_feas < 0):
+        if not isnumber_(options.tol_feas) or (options.tol_feas < 0):
             if options.verbose:
                 fprintf_('\n### sqpdfo_options: incorrect value of some options.tol_feas (should be > 0)\n\n')
             info.flag = values.fail_on_argument
@@ -119,7 +127,7 @@ def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
         options.tol_feas = 1e-5  # default value
 
     if isfield_(options, 'tol_bnds'):
-        if (options.tol_bnds < 0):
+        if not isnumber_(options.tol_bnds) or (options.tol_bnds < 0):
             if options.verbose:
                 fprintf_('\n### sqpdfo_options: incorrect value of some options.tol_bnds (should be > 0)\n\n')
             info.flag = values.fail_on_argument
@@ -130,9 +138,9 @@ def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
         options.tol_bnds = 1e-5  # default value
 
     if isfield_(options, 'hess_approx'):
-        if 'bfgs' == options.hess_approx.lower().replace(" ", ""):
+        if 'bfgs' == str(options.hess_approx).lower().replace(" ", ""):
             options.hess_approx = values.bfgs
-        elif 'model' == options.hess_approx.lower().replace(" ", ""):
+        elif 'model' == str(options.hess_approx).lower().replace(" ", ""):
             options.hess_approx = values.model
         else:
             if options.verbose:
@@ -148,13 +156,13 @@ def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
         options.bfgs_restart = 0  # default value (no restart)
 
     if isfield_(options, 'whichmodel'):
-        if 'subbasis' == options.whichmodel.lower().replace(" ", ""):
+        if 'subbasis' == str(options.whichmodel).lower().replace(" ", ""):
             options.whichmodel = values.subbasis
-        elif 'frobnorm' == options.whichmodel.lower().replace(" ", ""):
+        elif 'frobnorm' == str(options.whichmodel).lower().replace(" ", ""):
             options.whichmodel = values.frobnorm
-        elif 'l2norm' == options.whichmodel.lower().replace(" ", ""):
+        elif 'l2norm' == str(options.whichmodel).lower().replace(" ", ""):
             options.whichmodel = values.l2norm
-        elif 'regression' == options.whichmodel.lower().replace(" ", ""):
+        elif 'regression' == str(options.whichmodel).lower().replace(" ", ""):
             options.whichmodel = values.regression
         else:
             if options.verbose:
@@ -167,11 +175,11 @@ def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
         options.whichmodel = 0  # default value
 
     if isfield_(options, 'final_degree'):
-        if 'linear' == options.final_degree.lower().replace(" ", ""):
+        if 'linear' == str(options.final_degree).lower().replace(" ", ""):
             options.final_degree = values.linear
-        elif 'diagonal' == options.final_degree.lower().replace(" ", ""):
+        elif 'diagonal' == str(options.final_degree).lower().replace(" ", ""):
             options.final_degree = values.diagonal
-        elif 'quadratic' == options.final_degree.lower().replace(" ", ""):
+        elif 'quadratic' == str(options.final_degree).lower().replace(" ", ""):
             options.final_degree = values.quadratic
         else:
             if options.verbose:
-- 
2.43.0


From 751aeaeb5bc0463a21ecf5f1d07df9b612e075ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:29 +0000
Subject: [PATCH 37/42] fix: wrong numbers of constraints or limits, limits
 given as numbers or nested lists and a NaN start raised exceptions

---
 sqpdfo/sqpdfo.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 1de762f..fb1ad8a 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -88,6 +88,12 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         me = 0
     if mi is None:
         mi = 0
+    for number in (me, mi):
+        if np.size(number) != 1 or np.asarray(number).dtype.kind not in 'biuf' or not (number >= 0 and number % 1 == 0):
+            print('Error: The number of constraints me or mi is not a nonnegative integer !')
+            return x, lm, info
+    me = int(me)
+    mi = int(mi)
 
     if func_f is None:
         print('Error: Definition of the objective function (in func_f()) is missing !')
@@ -114,6 +120,9 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         print('Error: No starting values of x given !')
         return x, lm, info
     x0 = np.atleast_2d(np.array(x0, dtype=float))
+    if np.any(np.isnan(x0)):
+        print('Error: The starting values of x are no numbers !')
+        return x, lm, info
     if lb is None or np.size(lb) == 0:
         lb = -1e20 * np.ones((x0.size, 1))
     else:
@@ -143,6 +152,11 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
             li = -np.ones(mi + me)*1e9
         if ui is None:
             ui = np.ones(mi + me) * 1e9
+        li = np.array(li, dtype=float).ravel()
+        ui = np.array(ui, dtype=float).ravel()
+        if li.size < mi + me or ui.size < mi + me:
+            print('Error: The number of limits li or ui is not the number of constraints !')
+            return x, lm, info
 
         # handling of two-sided inequalities in CUTEst
         for i in range(0, mi + me):
-- 
2.43.0


From 6e35c77e32fa12967273c29aea270a50a03705fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 38/42] fix: a constraint function with fewer values than
 inequalities raised an exception

---
 sqpdfo/sqpdfo_prelim.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 83d2d67..4c1c4b2 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -486,6 +486,15 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
         
     # Initialize slack variables if necessary
     
+    if nbr_slacks > me:
+        if options.verbose:
+            fprintf_(options.fout,'### sqpdfo_prelim: fewer constraint values than inequality constraints\n\n')
+        info.flag=values.fail_on_problem
+        return n,nb,mi,me,x,lm,lb,ub,scalefacX,Delta0,nfix,indfix,xfix,vstatus,xstatus,\
+           sstatus,dstatus,QZ,RZ,scale,poised,Y_radius,poised_model,X,fX,Y,fY,\
+           ciX,ciY,ceX,ceY,poisedness_known,m,gx,normgx,fcmodel,ind_Y,i_xbest,\
+           cur_degree,rep_degree,plin,pdiag,pquad,indfree,info,options,values
+
     if nbr_slacks > 0:
     
         ce = info.ce
-- 
2.43.0


From 5edc1c315e8ea896f967679ffc0f7724630612f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 39/42] fix: constraint values beyond 1e25 were replaced by
 small values or values of the other sign

A constraint value of 1e30 was replaced by ten times the largest of the other
values, which is small or even negative when those are, so that a point with an
enormous violation was taken for (and returned as) a feasible one.
---
 sqpdfo/sqpdfo_main.py   | 5 +++--
 sqpdfo/sqpdfo_prelim.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index eee30a0..d6a41ea 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -801,8 +801,9 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
             fxplus=copy(fX[m])
             
             if me > 0:
-                ceX[ceX>=1e25] = 10*max_(ceX[ceX<1e25])
-                ceX[ceX<=-1e25] = 10*min_(ceX[ceX>-1e25])
+                huge = 10*max([1.0] + list(abs(ceX[abs(ceX)<1e25])))
+                ceX[ceX>=1e25] = huge
+                ceX[ceX<=-1e25] = -huge
                 ceplus = copy(array([ceX[:,m]]).T)
 
         # ---------------
diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 4c1c4b2..eeaa17c 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -379,8 +379,9 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
             
         # Check for infinity constraint values
         
-        ceX[ceX>=1e25] = 10 * max_(ceX[ceX<1e25])
-        ceX[ceX<=-1e25] = 10 * min_(ceX[ceX>-1e25])
+        huge = 10*max([1.0] + list(abs(ceX[abs(ceX)<1e25])))
+        ceX[ceX>=1e25] = huge
+        ceX[ceX<=-1e25] = -huge
                     
         fY=copy(fX)
         ciY=copy(ciX)
-- 
2.43.0


From 09234bd2af7d4d5c706f1eae610543bda5c4db8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:46 +0000
Subject: [PATCH 40/42] fix: slack variables moved by a tangent step and again
 by its shortened version

---
 sqpdfo/sqpdfo_solve_TR_bc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_solve_TR_bc.py b/sqpdfo/sqpdfo_solve_TR_bc.py
index 9dbf7d1..92d2ba9 100644
--- a/sqpdfo/sqpdfo_solve_TR_bc.py
+++ b/sqpdfo/sqpdfo_solve_TR_bc.py
@@ -360,7 +360,8 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
             if iter_active == 1:
                 slnew = sl + r_slsl + t_slsl
             else:
-                slnew = slnew + t_slsl
+                slold = copy(slnew)
+                slnew = slold + t_slsl
                 
             # check slacks to stay in their bounds
             
@@ -567,7 +568,7 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
                 if iter_active == 1:
                     slnew = sl + r_sl[n:n+nbr_slacks] + tstep[n:n+nbr_slacks]
                 else:
-                    slnew = slnew + tstep[n:n+nbr_slacks]
+                    slnew = slold + tstep[n:n+nbr_slacks]
             
             if options.verbose == 3:
                 disp_('t = (',str(tstep[0:n].T),')')
-- 
2.43.0


From f3dafe4651e92e55213f4a6d68b6dd0c7616f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:51 +0000
Subject: [PATCH 41/42] fix: the Hessian of the Lagrangian was added to the
 Jacobian of the linearised constraints

---
 sqpdfo/sqpdfo_solve_TR_bc.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sqpdfo/sqpdfo_solve_TR_bc.py b/sqpdfo/sqpdfo_solve_TR_bc.py
index 92d2ba9..ccdfbec 100644
--- a/sqpdfo/sqpdfo_solve_TR_bc.py
+++ b/sqpdfo/sqpdfo_solve_TR_bc.py
@@ -575,13 +575,10 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
                 disp_('delta_t = ',str(delta_t),', norm_t = ',str(norm_(tstep[0:n])))
                 disp_('delta ',str(delta),', norm_s = ',str(norm_(r + tstep[0:n])))
                 
-            # update gradient and Jacobian 
+            # update gradient (the linearised constraints keep their Jacobian)
 
             glocal=glocal + M .dot(step)
             
-            for i in range(0,me):
-                gconstraints[i,:]=gconstraints[[i],:] + (M .dot( step)).T
-                
             delta=delta - 0.5*norm_(step[0:n])
 
     return xnew,delta,rpred,active_r,active_t,lm_computed,lm,info,slnew
-- 
2.43.0


From 3a0fe926320497f0df9216ce4ba0ca8623708cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:50 +0000
Subject: [PATCH 42/42] fix: later tangent steps were shortened from the
 initial slack variables

After a step has been cut at a bound the slack variables have moved; measuring
the distance to their bounds from the initial values let them become negative.
---
 sqpdfo/sqpdfo_solve_TR_bc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_solve_TR_bc.py b/sqpdfo/sqpdfo_solve_TR_bc.py
index ccdfbec..8e14827 100644
--- a/sqpdfo/sqpdfo_solve_TR_bc.py
+++ b/sqpdfo/sqpdfo_solve_TR_bc.py
@@ -534,7 +534,11 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
             
             if nbr_slacks:
                 aT=concatenate_([eye_(n+nbr_slacks),-eye_(n+nbr_slacks)])
-                aTx=aT.dot(concatenate_([xr,sl+r_sl[n:n+nbr_slacks]]))
+                if iter_active == 1:
+                    slr = sl + r_sl[n:n+nbr_slacks]
+                else:
+                    slr = slold
+                aTx=aT.dot(concatenate_([xr,slr]))
                 alpha=concatenate_([ub[0:n+nbr_slacks],-lb[0:n+nbr_slacks]])
             else:
                 aT=concatenate_([eye_(n),- eye_(n)])
-- 
2.43.0

