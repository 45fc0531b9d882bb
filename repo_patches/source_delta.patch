From a759ffa0e086248e1eb59d41a30784840820a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 01/43] fix: parenthesise the argument of ABS()

ABS(xend-x) expanded to -xend-x, so that integrating backward from x!=0
got a wrong first step (Radau5, Rodas).
---
 Radau5-NG/include/Radau5cc.hpp        | 2 +-
 Rock4-NG/include/ToolOMP.hpp          | 2 +-
 Rodas-NG/include/Rodascc.hpp          | 2 +-
 SymplecticRK/include/SymplecticRK.hpp | 2 +-
 common/include/Hessenberg.hpp         | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 22d5e0c..0c202ca 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -14,7 +14,7 @@
 #endif
 #define MAX(x,y) ((x)>(y)?(x):(y))
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 #define SIGN(a) (((a) >= (0.0)) ? (1.) : (-1.))
 namespace odes
 {
diff --git a/Rock4-NG/include/ToolOMP.hpp b/Rock4-NG/include/ToolOMP.hpp
index 55dfd29..576689b 100644
--- a/Rock4-NG/include/ToolOMP.hpp
+++ b/Rock4-NG/include/ToolOMP.hpp
@@ -3,7 +3,7 @@
 #include "Rock4Coeffs.hpp"
 #include "MacrosForCompilers.hpp"
 #include "OdesException.hpp"
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 using namespace std;
 namespace odes {
   ///////////////////////////////////////////////////////////////////////////
diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 13f62e4..e3780fc 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -13,7 +13,7 @@
 #endif
 #define MAX(x,y) ((x)>(y)?(x):(y))
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 #define SIGN(a) (((a) >= (0.0)) ? (1.) : (-1.))
 namespace odes
 {
diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index e3400ba..4929ba2 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -6,7 +6,7 @@
 #include "Extrap.hpp"
 #include <iostream>
 #define MAX(x,y) ((x)>(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 using namespace std;
 namespace odes{
 ///////////////////////////////////////////////////////////////////////////
diff --git a/common/include/Hessenberg.hpp b/common/include/Hessenberg.hpp
index 377a6db..72b5480 100644
--- a/common/include/Hessenberg.hpp
+++ b/common/include/Hessenberg.hpp
@@ -4,7 +4,7 @@
 #include "fortranVector.hpp"
 using namespace odes;
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 /////////////////////////////////////////////////////////////////////////////
 /// All what is necessary to compute with Hessenberg matrices (but not
 /// the reduction of a full matrix to Hessenberg form (see Matrices.hpp).
-- 
2.43.0


From 8198e2eaae5837984de3a4f33e8cd39c3dfd5293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 02/43] fix: Radau5: always initialise hopt

When the first step was also the last one, getLastTimeStep() returned
an uninitialised value.
---
 Radau5-NG/include/Radau5cc.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 0c202ca..55c9814 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -476,7 +476,6 @@ namespace odes
 	  seth(x,xend-x);
 	  last=true;
 	}
-      else
       hopt=h;
       xold=x;
 
-- 
2.43.0


From 0160458237ca56934b157d8c5ab0b39a44b2c4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 03/43] fix: Radau5: redo the step when Newton iterations did
 not converge

After nit iterations without convergence, the step was only restarted when
no step had converged before; else the unconverged stages went to the
error test with a halved h.
---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 55c9814..c1082c5 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -543,7 +543,7 @@ namespace odes
 		  {
 		    //h/=2.; 
 		    seth(x,h*0.5);
-		    hhfac=0.5;
+		    hhfac=0.5; reject=true; last=false; redonewton=true;
 		    if(!caljac) 
 		      {
 			if(ComputeJacobianNumerically)
-- 
2.43.0


From ea3f2fc25044969d36d0a4c1a764fe37c4253829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 04/43] fix: Radau5: check nmax also when Newton iterations
 fail

If Newton never converges (a NaN in the right-hand side, say), operator()
looped forever.
---
 Radau5-NG/include/Radau5cc.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index c1082c5..4779409 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -496,10 +496,10 @@ namespace odes
       for(;;)
 	{
 	  
-	  if(nstep>nmax)
-	    throw OdesException("Radau5cc() nstep=",nstep,"too large, nmax=",
-				  nmax);
 	  do{//20 in Hairer.
+	    if(nstep>nmax)
+	      throw OdesException("Radau5cc() nstep=",nstep,"too large, nmax=",
+				  nmax);
 	    ++nstep;
 	    // starting values for newton iteration:
 	    xph=x+h;
-- 
2.43.0


From 18bc2a04586456741c1734dd6a134998e750422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 05/43] fix: Radau5: do not overwrite the values given to
 setFacrFacl()

---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 4779409..090280a 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -456,7 +456,7 @@ namespace odes
       bool redonewton=true; 
       caljac=true;startn=false; first=true;
       reject=false,last=false;
-      cfac=safe*(1+2*nit); facr=1.e+0/8.e+0; facl=5.e+0;
+      cfac=safe*(1+2*nit);
       int reason=0;
       nstep=0; ndec=0;
       //h=_h;
-- 
2.43.0


From cd3d2a6ff96f3283515603324969b37f65ee3614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 06/43] fix: Radau5: reset faccon at the beginning of an
 integration

The result depended on what the object had integrated before.
---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 090280a..1a8bcb2 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -454,7 +454,7 @@ namespace odes
       naccpt=0; nrejct=0; njac=0;nfonccalled=0;
       //-------------------
       bool redonewton=true; 
-      caljac=true;startn=false; first=true;
+      caljac=true;startn=false; first=true; faccon=1.;
       reject=false,last=false;
       cfac=safe*(1+2*nit);
       int reason=0;
-- 
2.43.0


From aa6ee27e02a8f404ebff7a6f771d5b6cd30dd0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 07/43] fix: Radau5: advance x, and count the step, in one step
 mode

performOnlyOneStep(true) updated y but not x.
---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 1a8bcb2..880df34 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -588,7 +588,6 @@ namespace odes
 	  double hnew=h/quot;
 	  if(err<1.0)
 	    {
-	      if(onlyOneStep) {Y+=Z3;break;}
 	      //step accepted
 	      if(naccpt==0) firstAcceptedStep=h;
 	      first=false;++naccpt;
@@ -608,6 +607,7 @@ namespace odes
 	      xold=x,hold=h;
 	      x=xph;
 	      Y+=Z3;
+	      if(onlyOneStep) break;
 	      
 	      double uC2M1=1./C2M1,uC2=1./C2;
 #include "Ivdep.hpp"
-- 
2.43.0


From f772d466d7324b0e44346bd390eb55c3999f1ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 08/43] fix: Radau5: last divided difference of the collocation
 polynomial

ACONT3=Z1/C1 in Hairer & Wanner, not Z1/(C1-1): the starting values of
Newton iterations were not those of the collocation polynomial.
---
 Radau5-NG/include/Radau5cc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 880df34..950934a 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -613,11 +613,11 @@ namespace odes
 #include "Ivdep.hpp"
 	      for(int i=1;i<=n;i++)
 		save1(i)=(Z2(i)-Z3(i))*uC2M1;
-	      double uC1MC2=1./C1MC2,uC1M1=1./C1M1;
+	      double uC1MC2=1./C1MC2,uC1M1=1./C1M1,uC1=1./C1;
 #include "Ivdep.hpp"
 	      for(int i=1;i<=n;i++)
 		save2(i)=((Z1(i)-Z2(i))*uC1MC2-save1(i))*uC1M1;
-	      double aaa=(uC1MC2-uC1M1)*uC2,bbb=uC1MC2*uC2;
+	      double aaa=(uC1MC2-uC1)*uC2,bbb=uC1MC2*uC2;
 #include "Ivdep.hpp"
 	      for(int i=1;i<=n;i++)
 		save3(i)=save2(i)-aaa*Z1(i)+bbb*Z2(i); 
-- 
2.43.0


From 786b6d4a01244c89f4c984ba9f48f484b088608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 09/43] fix: Radau5: count the function call made by the error
 estimator

---
 Radau5-NG/include/Radau5cc.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 950934a..904cfef 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -267,6 +267,7 @@ namespace odes
 	 {
 	   CONT1.sum(CONT1,y);
 	   F(t,&CONT1,&F1);
+	   ++nfonccalled;
 	   CONT1.sum(F1,F2);
 	   solvereal(CONT1,Jac);
 	   err=0.0;
-- 
2.43.0


From db462bb9ae5ed5744916f03596d4ddef8ae3cccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 10/43] fix: Radau5: accept convergence at the last allowed
 Newton iteration

---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 904cfef..62c5292 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -225,7 +225,7 @@ namespace odes
 		  leave=true; whyDoWeLeave=converged;
 		}
 	    }
-	  if(newt==nit)
+	  if(!leave && newt==nit)
 	    {
 	      leave=true; whyDoWeLeave=didNotConverge;
 	    }
-- 
2.43.0


From 77918a2804aebb707e946138f1b2a59d373a7167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 11/43] fix: Radau5, Rodas: nothing to do when xend==x

With an empty interval the step was 0, and we divided by it.
---
 Radau5-NG/include/Radau5cc.hpp | 1 +
 Rodas-NG/include/Rodascc.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 62c5292..84c2b6d 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -462,6 +462,7 @@ namespace odes
       nstep=0; ndec=0;
       //h=_h;
       seth(x,_h);
+      if(x==_xend) return;
       fortranVectorF<n> y0;
       fortranVector Y(y,n);
       xend=_xend;
diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index e3780fc..b9188c0 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -325,6 +325,7 @@ namespace odes
       nsol=0; nfcn=0;
 
       seth(x,_h);
+      if(x==_xend) return;
       fortranVectorF<n> y0;
       fortranVectorF<n> Y;
       Y=y;
-- 
2.43.0


From 5b887cf32bc166a22c57fabcd9a86f33d1710fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 12/43] fix: fortranVectorF::put() must write into its argument

Rodas never returned the computed solution to the user.
---
 common/include/fortranVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/fortranVector.hpp b/common/include/fortranVector.hpp
index b361a26..71de7d2 100644
--- a/common/include/fortranVector.hpp
+++ b/common/include/fortranVector.hpp
@@ -410,7 +410,7 @@ public:
       ASSUME_ALIGNED(x);ASSUME_ALIGNED(_x);
 #include "Ivdep.hpp"
       for(int i=0;i<n;i++)
-	y[i]=x[i];
+	_x[i]=x[i];
     }
     //! print
     void print(string s="") const
-- 
2.43.0


From e0b2353078492f778ed9d67851cb97f8828e14df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 13/43] fix: Rodas: indices of vector tolerances are in [0,n-1]

---
 Rodas-NG/include/Rodascc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index b9188c0..225ab15 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -232,8 +232,8 @@ namespace odes
 #include "Ivdep.hpp"
 	  for(int i=1;i<=n;i++)
 	    {
-	      rtol(i)=_rtol[i];
-	      atol(i)=_atol[i];
+	      rtol(i)=_rtol[i-1];
+	      atol(i)=_atol[i-1];
 	    }
 	}
     }
-- 
2.43.0


From 8e687c70057495bfa96f4edd242e9dae5fcdd967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 14/43] fix: Rodas: check nmax also when steps are rejected

If every attempt is rejected (a NaN in the right-hand side, say),
operator() looped forever.
---
 Rodas-NG/include/Rodascc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 225ab15..e8a28d5 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -365,6 +365,8 @@ namespace odes
 
 	  do
 	    {
+	      if(nstep>nmax)
+		throw OdesException("Rodas(): nstep too large:",nstep);
 	      fac=1./(h*GAMMA);
 	     
 	      decomr(fac,Jac);
@@ -468,8 +470,6 @@ namespace odes
 		}
 	    }
 	  while(reject);
-	  if(nstep>nmax)
-	    throw OdesException("Rodas(): nstep too large:",nstep);
 	  if(onlyOneStep) break;
 	}
       
-- 
2.43.0


From 7b33392ceab5af3aa24366e6faac92870179a067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 15/43] fix: Rodas: count all the rejections which follow the
 first accepted step

---
 Rodas-NG/include/Rodascc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index e8a28d5..18a836e 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -466,7 +466,7 @@ namespace odes
 		  reject=true;
 		  last=false;
 		  h=hnew;
-		  if(naccpt>1) ++nrejct;
+		  if(naccpt) ++nrejct;
 		}
 	    }
 	  while(reject);
-- 
2.43.0


From 675b39e4f85fa37ab4f11271252e4610df2c9853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 16/43] fix: Rodas: keep x and y consistent when an exception
 is thrown

x was updated at each accepted step, but y only at the very end.
---
 Rodas-NG/include/Rodascc.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 18a836e..098da52 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -454,6 +454,7 @@ namespace odes
 		      erracc=MAX(1.e-02,err);
 		    }
 		  Y=YNEW;
+		  Y.put(y);
 		  xold=x;
 		  x+=h;
 		  if(ABS(hnew)>hmaxn) hnew=posneg*hmaxn;
@@ -472,8 +473,6 @@ namespace odes
 	  while(reject);
 	  if(onlyOneStep) break;
 	}
-      
-      Y.put(y);
     }
   };
 }
-- 
2.43.0


From c0e2e4fa91f04adb7b108f602c20c6163681b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 17/43] fix: Rodas: give its default value to the initial step
 before testing it

A null initial step was refused as too small, although a default is provided,
as in Radau5.
---
 Rodas-NG/include/Rodascc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 098da52..240b75b 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -333,12 +333,12 @@ namespace odes
       posneg=SIGN(xend-x);
       hmax=xend-x;
       hmaxn=MIN(ABS(hmax),ABS(xend-x));
+      if(ABS(h)<10.*uround) //h=1.e-6;
+	seth(x,1.e-6);
       while(!last)
 	{
 	  if (0.1e0*ABS(h)<=ABS(x)*uround)
 	    throw OdesException("Rodascc():, h too small",h);
-	  if(ABS(h)<10.*uround) //h=1.e-6;
-	    seth(x,1.e-6);
 	  seth(x,MIN(ABS(h),hmaxn)*posneg);
 	  xold=x;
 	  if((x+h*1.0001-xend)*posneg>0.0)
-- 
2.43.0


From 0b95a7e0048f62dbcf016f44efc019afd9d8624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 18/43] fix: Rock4: data race on the error norm with OpenMP

---
 Rock4-NG/include/ToolOMP.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rock4-NG/include/ToolOMP.hpp b/Rock4-NG/include/ToolOMP.hpp
index 576689b..789ffa8 100644
--- a/Rock4-NG/include/ToolOMP.hpp
+++ b/Rock4-NG/include/ToolOMP.hpp
@@ -143,7 +143,7 @@ namespace odes {
       ASSUME_ALIGNED(x3);  ASSUME_ALIGNED(x4); 
       ASSUME_ALIGNED(x5);  ASSUME_ALIGNED(y);
 #ifdef ROCK4_OMP
-#pragma omp parallel for
+#pragma omp parallel for reduction(+:ret)
 #endif       
       for(int i=0;i<size;i++)
 	{
-- 
2.43.0


From 5b1a3a731ed5cc64706bc20c2a95fbe5d6b2f15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 19/43] fix: Rock4: recompute the spectral radius periodically

nrho is incremented by 2 modulo 10 after each accepted step: set to 1 after a
rejection, it was never 0 again.
---
 Rock4-NG/include/Rock4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 7351e97..f95177f 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -285,7 +285,7 @@ namespace odes {
 		}
 	      told=t;
 	     
-	      nrho= nrho!=0? 0:1;
+	      nrho= nrho!=0? 0:2;
 	    }
 	}
     }
-- 
2.43.0


From 11e5ebe4efcbc04bcedac6c6953a52240666af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 20/43] fix: Rock4, Rock4-L: the last step must end exactly at
 tend

t+(tend-t) can be lower than tend (rounding), and then the integration was
aborted ('step too small').
---
 Rock4-L/include/Rock4L.hpp | 752 ++++++++++++++++++-------------------
 Rock4-NG/include/Rock4.hpp |   2 +-
 2 files changed, 377 insertions(+), 377 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index c663f4f..acd686d 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -1,376 +1,376 @@
-#ifndef Rock4__h
-#define Rock4__h
-#include "Rock4Coeffs.hpp"
-#include "MacrosForCompilers.hpp"
-#include "AllocateDestroyVector.hpp"
-#include "OdesException.hpp"
-#include "switchAdr.hpp"
-#include <cmath>
-#include <cstdlib>
-using namespace std;
-namespace odes{
-///////////////////////////////////////////////////////////////////////////
-/// A replacement for A. Abdulle rock4.f code for Rock4 method.
-///  *We treat here linear and affine case* ie RHS must be:
-///        x-> Ax
-///    or 
-///        x-> Ax+ B with B independent of time.
-///
-/// Template arguments:
-///      - Fonc: Object function which defines the problem.
-///      - Affine: true iff we treat the affine case.
-///              
-///  The class Fonc must define the following public methods:
-///      1) contructor:  
-///                Fonc(int n) n: size (number of unknowns).
-///      2) destructor.
-///      3)  double rho()
-///            return spectral radius of A: 
-///      4) int size()        
-///            return n, the size of vectors (see contructor).
-///      5) void operator()(double * in, double * s, 
-///                            double a, double b,double *out)
-///           compute out[]= A*a* in[] +b s[]
-///      6) void operator()(double * in, double * s, 
-///                             double a, double b, double *g,double *out)
-///           compute out[]=A*a*in[]+ b*s[] +g[]
-///      7) void operator()(double * in, double * s,
-///                              double a, double b,double c,double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]
-///      8)  void operator()(double * in, double * s, 
-///                              double a, double b,double c,double *g,
-///                              double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]+ g[]
-///
-///    where in[], s[], g[] and out[] are vectors of size n.        
-//////////////////////////////////////////////////////////////////////////
-  template<class Fonc,bool Affine=false> class Rock4L
-  {
-    Fonc* Fp;
-    const int size;
-    double atol,rtol;//tolerances for time steps adaptation.
-    double uround,told;
-    double t; 
-    double *fn,*k1,*k2,*temp,*g0,*g1,*g2;
-    double *BigArray;
-    int mp[3],mdeg,funccal,nrej,nsteps,nacc,nstagesmax,sizesplit;
-    Rock4Coeffs Coeffs;
-    double ac[5][4],bc[5],hc[5];
-
-    //! We want to compute polynomial for the 2nd formula in Horner form.
-    //! so we must compute the coefficients in this form.
-    void makeHornerCoeffs()
-    {
-      hc[4]=ac[2][1]*ac[3][2]*ac[4][3]*bc[4]; 
-      hc[3]=ac[2][1]*ac[3][2]*bc[3] + ac[2][1]*ac[4][2]*bc[4] + 
-	ac[3][1]*ac[4][3]*bc[4] + ac[3][2]*ac[4][3]*bc[4];
-      hc[2]= ac[2][1]*bc[2] + ac[3][1]*bc[3] + ac[3][2]*bc[3] + 
-	ac[4][1]*bc[4] + ac[4][2]*bc[4] + ac[4][3]*bc[4];
-      hc[1]= bc[1] + bc[2] + bc[3] + bc[4];
-      hc[0]=1.;
-    } 
-    //! make sub arrays.
-    inline void splitBigArray()
-    {
-      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
-    }
-    //! permutate 3 adresses g0,g1,g2.
-    //! \param g0 
-    //! \param g1 
-    //! \param g2
-    inline void permut3(double *&g0,double *&g1,double *&g2)
-    {
-      double *temp=g0;
-      g0=g1; g1=g2;g2=temp;
-    }
-   
-    //! find degree of formula.
-    void mdegre(int& mdeg)
-    {
-      mp[2]=1;
-      //-------- Find the degree.--------      
-      for(int i=1;i<=50;i++)
-	{
-	  if ((Coeffs.ms(i)/mdeg)>=1)
-	    {
-	      mdeg=Coeffs.ms(i);
-	      mp[1]=i;
-	      break;
-	    }
-	  else
-	    mp[2]=mp[2]+Coeffs.ms(i)*2-1;
-	}
-    }
-    //! The heart of the computation; perform a dt step, in the linear
-    //! case.
-    //! \param y IN/OUT.
-    //! \param dt time step.
-    //! \note we solve dy/dt= Ay
-     void kernel1(double *y,double dt)
-    {
-      Fonc& F=*Fp;// told=0.;
-      double mz=mp[1],mr=mp[2];
-
-      splitBigArray();
-      //
-      //3 terms recurrence formula:
-      //
-      F(y,y,dt*Coeffs.recf(mr) ,1.0,g1);
- 
-      for(int i=2;i<=mdeg;i++)
-	{
-	  if(i==2)
-	    {
-	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
-	      double temp2=1.0-temp3;
-	      F(g1,y,temp1,temp2,temp3,g2);
-	      permut3(g0,g1,g2);
-
-	    }
-	  else
-	    {
-	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
-	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
-	      double temp2=1.0-temp3;
-	      F(g1,g0,temp1,temp2,temp3,g2);
-	      permut3(g0,g1,g2);
-	    }
-	}
-      switchAdr(g1,g0);
-      temp=g1;
-      funccal+=mdeg+1;
-      ++nsteps;
-      //
-      // result of the recurrence is always in g0.
-      //
-      // The second RK formula (4 steps).
-      //
-      //coefficients:
-      
-      ac[2][1]=dt*Coeffs.fpa(mz,1);
-      ac[3][1]=dt*Coeffs.fpa(mz,2);ac[3][2]=dt*Coeffs.fpa(mz,3);
-      ac[4][1]=dt*Coeffs.fpa(mz,4);ac[4][2]=dt*Coeffs.fpa(mz,5);
-      ac[4][3]=dt*Coeffs.fpa(mz,6);
-      bc[1]=dt*Coeffs.fpb(mz,1);bc[2]=dt*Coeffs.fpb(mz,2);
-      bc[3]=dt*Coeffs.fpb(mz,3);bc[4]=dt*Coeffs.fpb(mz,4);
-      makeHornerCoeffs();
-
-      //
- 
-      F(g0,g0,hc[4],hc[3],k1);
-      F(k1,g0,1.0,hc[2],temp);
-      F(temp,g0,1.0,hc[1],k1);
-      F(k1,g0,1.0,hc[0],y);
-      //
-      funccal+=4;
-
-    }
-    //! The heart of the computation; perform a dt step, in the affine
-    //! case.
-    //! \param y IN/OUT.
-    //! \param b the constant in time part of the RHS
-    //! \param dt time step.
-    //! \note we solve dy/dt= Ay + B, with a constant B.
-    void kernel2(double *y,double *b,double dt)
-    {
-   
-      //g1=temp;
-      Fonc& F=*Fp;// told=0.;
-      double mz=mp[1],mr=mp[2];
-
-      splitBigArray();
-      //
-      //3 terms recurrence formula:
-      //
-      F(y,y,dt*Coeffs.recf(mr) ,1.0,b,g1);
- 
-      for(int i=2;i<=mdeg;i++)
-	{
-	  if(i==2)
-	    {
-	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
-	      double temp2=1.0-temp3;
-	      F(g1,y,temp1,temp2,temp3,b,g2);
-	      permut3(g0,g1,g2);
-
-	    }
-	  else
-	    {
-	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
-	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
-	      double temp2=1.0-temp3;
-	      F(g1,g0,temp1,temp2,temp3,b,g2);
-	      permut3(g0,g1,g2);
-	    }
-	}
-      switchAdr(g1,g0);
-      temp=g1;
-      funccal+=mdeg+1;
-      ++nsteps;
-      //
-      // result of the recurrence is always in g0.
-      //
-      // The second RK formula (4 steps).
-      //
-      //coefficients:
-      
-      ac[2][1]=Coeffs.fpa(mz,1);
-      ac[3][1]=Coeffs.fpa(mz,2);ac[3][2]=Coeffs.fpa(mz,3);
-      ac[4][1]=Coeffs.fpa(mz,4);ac[4][2]=Coeffs.fpa(mz,5);
-      ac[4][3]=Coeffs.fpa(mz,6);
-      bc[1]=Coeffs.fpb(mz,1);bc[2]=Coeffs.fpb(mz,2);
-      bc[3]=Coeffs.fpb(mz,3);bc[4]=Coeffs.fpb(mz,4);
-      makeHornerCoeffs();
-      double dt2=dt*dt, dt3= dt2*dt;
-      //
-      F(g0,b,dt,dt,k1);// dt A g0+ dt b -> k1
-
-      // now we have a polynomial of degree 3 to evaluate: 
-      F(k1,k1,hc[4]*dt3,hc[3]*dt2,g1);
-      F(g1,k1,1.0,hc[2]*dt,g2);
-      F(g2,k1,1.0,hc[1],g1);
-      // finish:
-      ASSUME_ALIGNED(y);ASSUME_ALIGNED(g0);ASSUME_ALIGNED(g1);
-#include "Ivdep.hpp"
-      for(int i=0;i<size;i++)
-	y[i]=g0[i]+g1[i];
-      
-      funccal+=4;
-
-    }
-
-  public:
-    //! constructor
-    //! \param  F RHS.
-    Rock4L(Fonc& F): Fp(&F),size(Fp->size())
-    {
-      int bk=BLOCK_FACTOR/sizeof(double);
-      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
-      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
-      splitBigArray();
-       // do not allocate Vtemp. 
-      uround=1.e-16;
-    }
-    //! destructor
-    ~Rock4L()
-    {
-      //Suppress(BigArray);
-      destroyDoubleArray(BigArray);
-    }
-    
-    //! number of stages used (we count both methods).
-    inline int NbStages() const {return nstagesmax;}
-    //! number of RHS computed
-    inline int NbRhsComputed() const {return funccal;}
-    //! number of steps performed.
-    inline int NbSteps() const {return nsteps;}
-    //! return a correctly aligned vector, for unknowns.
-    //inline double* alloc_vec() {return Allocate(size);} 
-    //! delete a vector allocated with alloc_vec()
-    //inline void delete_vec(double * v){Suppress(v);}
-    //! number of unknowns.
-    inline int nbUnkn() const {return size;}
-    //! value of "time":
-    inline double Time() const {return t;}
-    
-    //! operator() performs the step IN THE LINEAR CASE, delegating to kernel1.
-    //! \param  y IN/OUT. Initial values on input, final values on output.
-    //! \param t0 initial value of time
-    //! \param tend final time.
-    //! \param _h proposed time step.
-    //! \note We integrate from t0 to tend
-    //! \note  we solve dy/dt= Ay.
-    void operator()(double *y,double t0,double tend, double _h)
-    {
-      if(Affine)
-	throw OdesException("Rock4::operator() called as affine");
-      int mdego=0; nsteps=0;
-      nrej=0; nacc=0;nstagesmax=0;
-      Fonc& F=*Fp;
-      int pass=0;
-      funccal=0;
-      t=t0;
-      double h=_h;
-      told=0.0;
-      double eigmax=F.rho();
-      
-      while(t<tend)
-	{
-	  if(1.01e0*h>=abs(tend-t))
-	    h=abs(tend-t);
-
-	  if (h<10.0e0*uround)
-	    throw OdesException("Rock4: step too small h=",h,"limit:",
-				     10.0e0*uround);
-
-	  ++pass;
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  if (mdeg>152)
-	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",mdeg,
-				   "You should decrease time step");
-	  mdeg=max(mdeg,5)-4;
-	  if(mdeg!=mdego)
-	    {
-	      mdegre(mdeg);
-	      mdego=mdeg;
-	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
-	    }
-	  kernel1(y,h);
-	  t+=h;
-	  if(t+h>tend) h=tend-t;
-	}
-    }
-    //! operator() performs the step IN THE AFFINE CASE, delegating to kernel1.
-    //! \param  y IN/OUT. Initial values on input, final values on output.
-    //! \param b RHS.
-    //! \param t0 initial value of time
-    //! \param tend final time.
-    //! \param _h proposed time step.
-    //! \note We integrate from t0 to tend
-    //! \note we solve dy/dt= Ay+b.
-    void operator()(double *y,double *b, double t0,double tend, double _h)
-    {
-      if(!Affine)
-	throw OdesException("Rock4::operator() called as not affine");
-      int mdego=0; nsteps=0;
-      nrej=0; nacc=0;nstagesmax=0;
-      Fonc& F=*Fp;
-      int pass=0;
-      funccal=0;
-      t=t0;
-      double h=_h;
-      told=0.0;
-      double eigmax=F.rho();
-      
-      while(t<tend)
-	{
-	  if(1.01e0*h>=abs(tend-t))
-	    h=abs(tend-t);
-
-	  if (h<10.0e0*uround)
-	    throw OdesException("Rock4: step too small h=",h,"limit:",
-				     10.0e0*uround);
-
-	  ++pass;
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  if (mdeg>152)
-	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",mdeg,
-				   "You should decrease time step");
-	  mdeg=max(mdeg,5)-4;
-	  if(mdeg!=mdego)
-	    {
-	      mdegre(mdeg);
-	      mdego=mdeg;
-	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
-	    }
-	  kernel2(y,b,h);
-	  t+=h;
-	  if(t+h>tend) h=tend-t;
-	}
-    }
-  };
-};
-
-#endif
+#ifndef Rock4__h
+#define Rock4__h
+#include "Rock4Coeffs.hpp"
+#include "MacrosForCompilers.hpp"
+#include "AllocateDestroyVector.hpp"
+#include "OdesException.hpp"
+#include "switchAdr.hpp"
+#include <cmath>
+#include <cstdlib>
+using namespace std;
+namespace odes{
+///////////////////////////////////////////////////////////////////////////
+/// A replacement for A. Abdulle rock4.f code for Rock4 method.
+///  *We treat here linear and affine case* ie RHS must be:
+///        x-> Ax
+///    or 
+///        x-> Ax+ B with B independent of time.
+///
+/// Template arguments:
+///      - Fonc: Object function which defines the problem.
+///      - Affine: true iff we treat the affine case.
+///              
+///  The class Fonc must define the following public methods:
+///      1) contructor:  
+///                Fonc(int n) n: size (number of unknowns).
+///      2) destructor.
+///      3)  double rho()
+///            return spectral radius of A: 
+///      4) int size()        
+///            return n, the size of vectors (see contructor).
+///      5) void operator()(double * in, double * s, 
+///                            double a, double b,double *out)
+///           compute out[]= A*a* in[] +b s[]
+///      6) void operator()(double * in, double * s, 
+///                             double a, double b, double *g,double *out)
+///           compute out[]=A*a*in[]+ b*s[] +g[]
+///      7) void operator()(double * in, double * s,
+///                              double a, double b,double c,double *out)
+///           compute out[]==A*a*in[]+ b*in[] + c*s[]
+///      8)  void operator()(double * in, double * s, 
+///                              double a, double b,double c,double *g,
+///                              double *out)
+///           compute out[]==A*a*in[]+ b*in[] + c*s[]+ g[]
+///
+///    where in[], s[], g[] and out[] are vectors of size n.        
+//////////////////////////////////////////////////////////////////////////
+  template<class Fonc,bool Affine=false> class Rock4L
+  {
+    Fonc* Fp;
+    const int size;
+    double atol,rtol;//tolerances for time steps adaptation.
+    double uround,told;
+    double t; 
+    double *fn,*k1,*k2,*temp,*g0,*g1,*g2;
+    double *BigArray;
+    int mp[3],mdeg,funccal,nrej,nsteps,nacc,nstagesmax,sizesplit;
+    Rock4Coeffs Coeffs;
+    double ac[5][4],bc[5],hc[5];
+
+    //! We want to compute polynomial for the 2nd formula in Horner form.
+    //! so we must compute the coefficients in this form.
+    void makeHornerCoeffs()
+    {
+      hc[4]=ac[2][1]*ac[3][2]*ac[4][3]*bc[4]; 
+      hc[3]=ac[2][1]*ac[3][2]*bc[3] + ac[2][1]*ac[4][2]*bc[4] + 
+	ac[3][1]*ac[4][3]*bc[4] + ac[3][2]*ac[4][3]*bc[4];
+      hc[2]= ac[2][1]*bc[2] + ac[3][1]*bc[3] + ac[3][2]*bc[3] + 
+	ac[4][1]*bc[4] + ac[4][2]*bc[4] + ac[4][3]*bc[4];
+      hc[1]= bc[1] + bc[2] + bc[3] + bc[4];
+      hc[0]=1.;
+    } 
+    //! make sub arrays.
+    inline void splitBigArray()
+    {
+      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
+    }
+    //! permutate 3 adresses g0,g1,g2.
+    //! \param g0 
+    //! \param g1 
+    //! \param g2
+    inline void permut3(double *&g0,double *&g1,double *&g2)
+    {
+      double *temp=g0;
+      g0=g1; g1=g2;g2=temp;
+    }
+   
+    //! find degree of formula.
+    void mdegre(int& mdeg)
+    {
+      mp[2]=1;
+      //-------- Find the degree.--------      
+      for(int i=1;i<=50;i++)
+	{
+	  if ((Coeffs.ms(i)/mdeg)>=1)
+	    {
+	      mdeg=Coeffs.ms(i);
+	      mp[1]=i;
+	      break;
+	    }
+	  else
+	    mp[2]=mp[2]+Coeffs.ms(i)*2-1;
+	}
+    }
+    //! The heart of the computation; perform a dt step, in the linear
+    //! case.
+    //! \param y IN/OUT.
+    //! \param dt time step.
+    //! \note we solve dy/dt= Ay
+     void kernel1(double *y,double dt)
+    {
+      Fonc& F=*Fp;// told=0.;
+      double mz=mp[1],mr=mp[2];
+
+      splitBigArray();
+      //
+      //3 terms recurrence formula:
+      //
+      F(y,y,dt*Coeffs.recf(mr) ,1.0,g1);
+ 
+      for(int i=2;i<=mdeg;i++)
+	{
+	  if(i==2)
+	    {
+	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
+	      double temp2=1.0-temp3;
+	      F(g1,y,temp1,temp2,temp3,g2);
+	      permut3(g0,g1,g2);
+
+	    }
+	  else
+	    {
+	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
+	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
+	      double temp2=1.0-temp3;
+	      F(g1,g0,temp1,temp2,temp3,g2);
+	      permut3(g0,g1,g2);
+	    }
+	}
+      switchAdr(g1,g0);
+      temp=g1;
+      funccal+=mdeg+1;
+      ++nsteps;
+      //
+      // result of the recurrence is always in g0.
+      //
+      // The second RK formula (4 steps).
+      //
+      //coefficients:
+      
+      ac[2][1]=dt*Coeffs.fpa(mz,1);
+      ac[3][1]=dt*Coeffs.fpa(mz,2);ac[3][2]=dt*Coeffs.fpa(mz,3);
+      ac[4][1]=dt*Coeffs.fpa(mz,4);ac[4][2]=dt*Coeffs.fpa(mz,5);
+      ac[4][3]=dt*Coeffs.fpa(mz,6);
+      bc[1]=dt*Coeffs.fpb(mz,1);bc[2]=dt*Coeffs.fpb(mz,2);
+      bc[3]=dt*Coeffs.fpb(mz,3);bc[4]=dt*Coeffs.fpb(mz,4);
+      makeHornerCoeffs();
+
+      //
+ 
+      F(g0,g0,hc[4],hc[3],k1);
+      F(k1,g0,1.0,hc[2],temp);
+      F(temp,g0,1.0,hc[1],k1);
+      F(k1,g0,1.0,hc[0],y);
+      //
+      funccal+=4;
+
+    }
+    //! The heart of the computation; perform a dt step, in the affine
+    //! case.
+    //! \param y IN/OUT.
+    //! \param b the constant in time part of the RHS
+    //! \param dt time step.
+    //! \note we solve dy/dt= Ay + B, with a constant B.
+    void kernel2(double *y,double *b,double dt)
+    {
+   
+      //g1=temp;
+      Fonc& F=*Fp;// told=0.;
+      double mz=mp[1],mr=mp[2];
+
+      splitBigArray();
+      //
+      //3 terms recurrence formula:
+      //
+      F(y,y,dt*Coeffs.recf(mr) ,1.0,b,g1);
+ 
+      for(int i=2;i<=mdeg;i++)
+	{
+	  if(i==2)
+	    {
+	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
+	      double temp2=1.0-temp3;
+	      F(g1,y,temp1,temp2,temp3,b,g2);
+	      permut3(g0,g1,g2);
+
+	    }
+	  else
+	    {
+	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
+	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
+	      double temp2=1.0-temp3;
+	      F(g1,g0,temp1,temp2,temp3,b,g2);
+	      permut3(g0,g1,g2);
+	    }
+	}
+      switchAdr(g1,g0);
+      temp=g1;
+      funccal+=mdeg+1;
+      ++nsteps;
+      //
+      // result of the recurrence is always in g0.
+      //
+      // The second RK formula (4 steps).
+      //
+      //coefficients:
+      
+      ac[2][1]=Coeffs.fpa(mz,1);
+      ac[3][1]=Coeffs.fpa(mz,2);ac[3][2]=Coeffs.fpa(mz,3);
+      ac[4][1]=Coeffs.fpa(mz,4);ac[4][2]=Coeffs.fpa(mz,5);
+      ac[4][3]=Coeffs.fpa(mz,6);
+      bc[1]=Coeffs.fpb(mz,1);bc[2]=Coeffs.fpb(mz,2);
+      bc[3]=Coeffs.fpb(mz,3);bc[4]=Coeffs.fpb(mz,4);
+      makeHornerCoeffs();
+      double dt2=dt*dt, dt3= dt2*dt;
+      //
+      F(g0,b,dt,dt,k1);// dt A g0+ dt b -> k1
+
+      // now we have a polynomial of degree 3 to evaluate: 
+      F(k1,k1,hc[4]*dt3,hc[3]*dt2,g1);
+      F(g1,k1,1.0,hc[2]*dt,g2);
+      F(g2,k1,1.0,hc[1],g1);
+      // finish:
+      ASSUME_ALIGNED(y);ASSUME_ALIGNED(g0);ASSUME_ALIGNED(g1);
+#include "Ivdep.hpp"
+      for(int i=0;i<size;i++)
+	y[i]=g0[i]+g1[i];
+      
+      funccal+=4;
+
+    }
+
+  public:
+    //! constructor
+    //! \param  F RHS.
+    Rock4L(Fonc& F): Fp(&F),size(Fp->size())
+    {
+      int bk=BLOCK_FACTOR/sizeof(double);
+      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
+      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
+      splitBigArray();
+       // do not allocate Vtemp. 
+      uround=1.e-16;
+    }
+    //! destructor
+    ~Rock4L()
+    {
+      //Suppress(BigArray);
+      destroyDoubleArray(BigArray);
+    }
+    
+    //! number of stages used (we count both methods).
+    inline int NbStages() const {return nstagesmax;}
+    //! number of RHS computed
+    inline int NbRhsComputed() const {return funccal;}
+    //! number of steps performed.
+    inline int NbSteps() const {return nsteps;}
+    //! return a correctly aligned vector, for unknowns.
+    //inline double* alloc_vec() {return Allocate(size);} 
+    //! delete a vector allocated with alloc_vec()
+    //inline void delete_vec(double * v){Suppress(v);}
+    //! number of unknowns.
+    inline int nbUnkn() const {return size;}
+    //! value of "time":
+    inline double Time() const {return t;}
+    
+    //! operator() performs the step IN THE LINEAR CASE, delegating to kernel1.
+    //! \param  y IN/OUT. Initial values on input, final values on output.
+    //! \param t0 initial value of time
+    //! \param tend final time.
+    //! \param _h proposed time step.
+    //! \note We integrate from t0 to tend
+    //! \note  we solve dy/dt= Ay.
+    void operator()(double *y,double t0,double tend, double _h)
+    {
+      if(Affine)
+	throw OdesException("Rock4::operator() called as affine");
+      int mdego=0; nsteps=0;
+      nrej=0; nacc=0;nstagesmax=0;
+      Fonc& F=*Fp;
+      int pass=0;
+      funccal=0;
+      t=t0;
+      double h=_h;
+      told=0.0;
+      double eigmax=F.rho();
+      
+      while(t<tend)
+	{
+	  if(1.01e0*h>=abs(tend-t))
+	    h=abs(tend-t);
+
+	  if (h<10.0e0*uround)
+	    throw OdesException("Rock4: step too small h=",h,"limit:",
+				     10.0e0*uround);
+
+	  ++pass;
+	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  if (mdeg>152)
+	    throw OdesException("Rock4: degree limited to 152."
+				   "Here you need:",mdeg,
+				   "You should decrease time step");
+	  mdeg=max(mdeg,5)-4;
+	  if(mdeg!=mdego)
+	    {
+	      mdegre(mdeg);
+	      mdego=mdeg;
+	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
+	    }
+	  kernel1(y,h);
+	  t=h==abs(tend-t)? tend:t+h;
+	  if(t+h>tend) h=tend-t;
+	}
+    }
+    //! operator() performs the step IN THE AFFINE CASE, delegating to kernel1.
+    //! \param  y IN/OUT. Initial values on input, final values on output.
+    //! \param b RHS.
+    //! \param t0 initial value of time
+    //! \param tend final time.
+    //! \param _h proposed time step.
+    //! \note We integrate from t0 to tend
+    //! \note we solve dy/dt= Ay+b.
+    void operator()(double *y,double *b, double t0,double tend, double _h)
+    {
+      if(!Affine)
+	throw OdesException("Rock4::operator() called as not affine");
+      int mdego=0; nsteps=0;
+      nrej=0; nacc=0;nstagesmax=0;
+      Fonc& F=*Fp;
+      int pass=0;
+      funccal=0;
+      t=t0;
+      double h=_h;
+      told=0.0;
+      double eigmax=F.rho();
+      
+      while(t<tend)
+	{
+	  if(1.01e0*h>=abs(tend-t))
+	    h=abs(tend-t);
+
+	  if (h<10.0e0*uround)
+	    throw OdesException("Rock4: step too small h=",h,"limit:",
+				     10.0e0*uround);
+
+	  ++pass;
+	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  if (mdeg>152)
+	    throw OdesException("Rock4: degree limited to 152."
+				   "Here you need:",mdeg,
+				   "You should decrease time step");
+	  mdeg=max(mdeg,5)-4;
+	  if(mdeg!=mdego)
+	    {
+	      mdegre(mdeg);
+	      mdego=mdeg;
+	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
+	    }
+	  kernel2(y,b,h);
+	  t=h==abs(tend-t)? tend:t+h;
+	  if(t+h>tend) h=tend-t;
+	}
+    }
+  };
+};
+
+#endif
diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index f95177f..6db3598 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -249,7 +249,7 @@ namespace odes {
 	    {
 	      //accepted step.
 	      ++nacc; facmax=2.0e0;
-	      t+=h;
+	      t=h==ABS(tend-t)? tend:t+h;
 	      hlast=h;
 	      if (reject)
 		{
-- 
2.43.0


From 57e2c109c111299bf33d61e739d1954018fd24f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 21/43] fix: Rock4: do not increase the step after a rejection

---
 Rock4-NG/include/Rock4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 6db3598..3760ec7 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -281,7 +281,7 @@ namespace odes {
 	      if (told==t) 
 		{
 		  ++nrejloc;
-		  if (nrejloc==10) h=1.0e-5;
+		  if (nrejloc==10) h=min(h,1.0e-5);
 		}
 	      told=t;
 	     
-- 
2.43.0


From 7a019073e773178643b0aea5d77af7166ccdbcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 22/43] fix: Rock4: NbStages() must count both methods, as in
 Rock4-L

---
 Rock4-NG/include/Rock4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 3760ec7..c1344d8 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -164,7 +164,7 @@ namespace odes {
       atol=_atol; rtol=_rtol;
     }
     //! number of stages used (we count both methods).
-    inline int NbStages() const {return mdeg;}
+    inline int NbStages() const {return nstagesmax;}
     //! number of RHS computed
     inline int NbRhsComputed() const {return funccal;}
     //! number of steps performed.
-- 
2.43.0


From cfb195c18782b6e68ea3c8ef78ae6ee6425178c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 23/43] fix: Rock4-L: number of function calls

mdeg calls are made by the recurrence.
---
 Rock4-L/include/Rock4L.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index acd686d..fd1b007 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -138,7 +138,7 @@ namespace odes{
 	}
       switchAdr(g1,g0);
       temp=g1;
-      funccal+=mdeg+1;
+      funccal+=mdeg;
       ++nsteps;
       //
       // result of the recurrence is always in g0.
@@ -205,7 +205,7 @@ namespace odes{
 	}
       switchAdr(g1,g0);
       temp=g1;
-      funccal+=mdeg+1;
+      funccal+=mdeg;
       ++nsteps;
       //
       // result of the recurrence is always in g0.
-- 
2.43.0


From e87f6215cad474f20075c1af540201362eca1503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 24/43] fix: SDIRKL: D=B.A^{-1}=2 for Crank-Nicolson

---
 SDIRKL/include/CrN.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SDIRKL/include/CrN.hpp b/SDIRKL/include/CrN.hpp
index 531d5c7..c0603bc 100644
--- a/SDIRKL/include/CrN.hpp
+++ b/SDIRKL/include/CrN.hpp
@@ -15,7 +15,7 @@ struct CrN
   CrN()
   {
     A[0][0]=0.5;
-    D[0]=1.;
+    D[0]=2.;
     S[0]=0.5;
     name="CrN";
   }
-- 
2.43.0


From 5e3c1fb6ec2e927bd25195949aaf2fce05b5491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 25/43] fix: SymplecticRK: extrapolation of starting values

Vectors Y and F are stored by substeps of n values, and coefficients are
relative to the value at the beginning of the preceding step.
---
 SymplecticRK/include/Extrap.hpp       | 6 +++---
 SymplecticRK/include/SymplecticRK.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/SymplecticRK/include/Extrap.hpp b/SymplecticRK/include/Extrap.hpp
index ce8baa2..8986e92 100644
--- a/SymplecticRK/include/Extrap.hpp
+++ b/SymplecticRK/include/Extrap.hpp
@@ -36,18 +36,18 @@ namespace odes{
     //! compute the predicted values.
     //! \param F  values of f()
     //! \param Y  unknows at substep
-    //! \param u  values at preceding time step.
+    //! \param u  values at the beginning of the preceding time step.
     void operator()(Double *F,Double *Y,Double *u)
     {
       for(int i=0;i<nsteps;i++)
 	{
 	  for(int l=0;l<n;l++)
-	    Y[nsteps*i+l]=u[l];
+	    Y[n*i+l]=u[l];
 	  for(int j=0;j<nsteps;j++)
 	    {
 	      double beta=q[nsteps*i+j];
 	      for(int l=0;l<n;l++)
-		Y[nsteps*i+l]+=beta*F[nsteps*j+l];
+		Y[n*i+l]+=beta*F[n*j+l];
 	    }
 	}
 	    
diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index 4929ba2..f367e00 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -60,7 +60,7 @@ public:
 	Ext.change_h(h);
       }
     if(do_extrap)
-      Ext(Y1,Y,u);
+      Ext(Y1,Y,a);
     else
       {
 	// this vectorizes with gcc
-- 
2.43.0


From 048b14a73910cee44c99a13e0768ffe12667219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 26/43] fix: SymplecticRK: do not truncate h to double in long
 double computations

---
 SymplecticRK/include/Extrap.hpp         | 2 +-
 SymplecticRK/include/GaussianMethod.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SymplecticRK/include/Extrap.hpp b/SymplecticRK/include/Extrap.hpp
index 8986e92..c4b8fe1 100644
--- a/SymplecticRK/include/Extrap.hpp
+++ b/SymplecticRK/include/Extrap.hpp
@@ -25,7 +25,7 @@ namespace odes{
     ~Extrap(){}
     //! multiply coefficients by h.
     //! \param h
-    void change_h(double h)
+    void change_h(Double h)
     {
        // copy coefficients in q[].
       extrapcoeffs<nsteps,Double>(q);
diff --git a/SymplecticRK/include/GaussianMethod.hpp b/SymplecticRK/include/GaussianMethod.hpp
index 64afba4..4fc0334 100644
--- a/SymplecticRK/include/GaussianMethod.hpp
+++ b/SymplecticRK/include/GaussianMethod.hpp
@@ -76,7 +76,7 @@ namespace odes{
     }
     //! multiply coefficients by h.
     //! \param h
-    void change_h(double h)
+    void change_h(Double h)
     {
       //init();
       icoeffs<nsteps,long double>(a,b);
-- 
2.43.0


From bbcd17846a9b12e9549e9bee34f9f5f8132fce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 27/43] fix: SymplecticRK: maxIter() returns the number of
 iterations performed

---
 SymplecticRK/include/SymplecticRK.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index f367e00..e26262c 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -115,7 +115,7 @@ public:
 	      }
 	  }
 	success=Test.success();
-	if(success) break;
+	if(success) {++iter; break;}
       }
    
     // 2nd phase:
-- 
2.43.0


From d8b1c91aefdd8aedc9c870efb95fa8dd60de8a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 28/43] fix: Hessenberg: householder() never ended with n=1

---
 common/include/Hessenberg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/Hessenberg.hpp b/common/include/Hessenberg.hpp
index 72b5480..819eb35 100644
--- a/common/include/Hessenberg.hpp
+++ b/common/include/Hessenberg.hpp
@@ -264,7 +264,7 @@ template<int n> void householder(const fortranArray<n>& A,const double tau[],
     {
       jbeg=n-2; jend=0;jinc=-1;
     }
-  for(int j=jbeg;j!=jend;j+=jinc)
+  for(int j=jbeg;direct? j<jend:j>jend;j+=jinc)
     {
       double s=Y(j+1);
       for(int i=j+2;i<=n;i++)
-- 
2.43.0


From b1d192c8ef36fdff3a9d8b401c27251c10f9d314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 29/43] fix: Hessenberg: test the result of dechc, as we do for
 dech

---
 common/include/Matrices.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/include/Matrices.hpp b/common/include/Matrices.hpp
index e08dea0..25d5235 100644
--- a/common/include/Matrices.hpp
+++ b/common/include/Matrices.hpp
@@ -293,7 +293,10 @@ namespace odes
 	    }
 	  E2R(j,j)+=alpha; E2I(j,j)=beta;
 	}
-      dechc(E2R,E2I,ipi);
+      int info=dechc(E2R,E2I,ipi);
+      if(info!=0)
+	throw OdesException("odes::Matrices::Matrices, decomc (dechc): ",
+			       info);
     }
     inline void solvecomplex(fortranVectorF<n>& Zr,fortranVectorF<n>& Zi,
 			     const fortranArray<n>& Jac)
-- 
2.43.0


From 63e253b418c3f3db2c5676192f309ad0cf1e2066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 30/43] fix: Hessenberg: free work with the function which
 corresponds to its allocation

---
 common/include/Matrices.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/Matrices.hpp b/common/include/Matrices.hpp
index 25d5235..ba05b37 100644
--- a/common/include/Matrices.hpp
+++ b/common/include/Matrices.hpp
@@ -250,9 +250,9 @@ namespace odes
 	  k=work[0];
 	  if(lwork<k)
 	    {
-	      if(work!=0) delete[] work;
+	      if(work!=0) destroyDoubleArray(work);
 	      lwork=k;
-	      work=new double[lwork];
+	      work=allocDoubleArray(lwork);
 	    }
 	  dgehrd_(&nn,&ilo,&ihi,&Jac,&lda,tau,work,&k,&info);
 	  if(info!=0)
-- 
2.43.0


From 0745cc5852d962a6900b52f4643dd3f1b36dd762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 31/43] fix: Matrices: refuse a banded matrix if nsub or nsup
 is too large

---
 common/include/Matrices.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/Matrices.hpp b/common/include/Matrices.hpp
index ba05b37..8dcb383 100644
--- a/common/include/Matrices.hpp
+++ b/common/include/Matrices.hpp
@@ -139,7 +139,7 @@ namespace odes
     //! constructor.
     Matrices()
     {
-      if(nsub>=n && nsup>=n)
+      if(nsub>=n || nsup>=n)
 	throw OdesException("Matrices (banded): incorrect nsub or nsup", 
 			       "nsub=",nsub,"nsup=",nsup,"n=",n);
     }
-- 
2.43.0


From 9d740eb511399a138c62b8d733f8afea81ad5405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 32/43] fix: banded arrays: bounds of print()

---
 common/include/fortranRectangularArray.hpp        | 2 +-
 common/include/fortranRectangularComplexArray.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/fortranRectangularArray.hpp b/common/include/fortranRectangularArray.hpp
index c31c02b..a47fdf7 100644
--- a/common/include/fortranRectangularArray.hpp
+++ b/common/include/fortranRectangularArray.hpp
@@ -108,7 +108,7 @@ public:
     cout<<s<<endl;
     for(int i=1;i<=n;i++)
       {
-  	for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+  	for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
   	  cout<<operator()(i,j)<<" ";
   	cout<<endl;
       }
diff --git a/common/include/fortranRectangularComplexArray.hpp b/common/include/fortranRectangularComplexArray.hpp
index 6959aeb..29879a1 100644
--- a/common/include/fortranRectangularComplexArray.hpp
+++ b/common/include/fortranRectangularComplexArray.hpp
@@ -106,14 +106,14 @@ namespace odes{
       cout<<s<<endl;
       for(int i=1;i<=n;i++)
     	{
-    	  for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+    	  for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
     	    cout<<Re(i,j)<<" ";
     	  cout<<endl;
     	}
       cout<<"---"<<endl;
       for(int i=1;i<=n;i++)
     	{
-    	  for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+    	  for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
     	    cout<<Im(i,j)<<" ";
     	  cout<<endl;
     	}    
-- 
2.43.0


From 0ce61b3220a2b4d05e880910476dce19e10979cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 33/43] fix: fortranArray: allocate memory in the copy
 constructor

---
 common/include/fortranArray.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/include/fortranArray.hpp b/common/include/fortranArray.hpp
index c988d23..91406d4 100644
--- a/common/include/fortranArray.hpp
+++ b/common/include/fortranArray.hpp
@@ -26,6 +26,7 @@ public:
   //! constructor (copy).
   fortranArray(const fortranArray<n>& AA )
   {
+    x=allocDoubleArray(n2);
     ASSUME_ALIGNED(x);ASSUME_ALIGNED(AA.x);
 #include "Ivdep.hpp"
     for(int i=0;i<n*n;i++)
-- 
2.43.0


From 33b3375a20efce3e5c50733567bf41fcc23fc6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 34/43] fix: fortranVector, fortranVectorF: no double deletion
 of copied vectors

---
 common/include/fortranVector.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/common/include/fortranVector.hpp b/common/include/fortranVector.hpp
index 71de7d2..66282c3 100644
--- a/common/include/fortranVector.hpp
+++ b/common/include/fortranVector.hpp
@@ -53,6 +53,14 @@ public:
     deletable=false;
     x=_x; size=_size;;
   }
+  //! copy constructor
+  //! \param V object to copy
+  //! \note we "adopt" the vector of V, which remains the owner.
+  fortranVector(const fortranVector& V)
+  {
+    deletable=false;
+    x=V.x; size=V.size;
+  }
   //! destructor
   ~fortranVector()
   {
@@ -156,6 +164,15 @@ public:
       y=allocDoubleArray(n);
       x=&(y[0]); size=n;deletable=false;
     }
+    //! copy constructor
+    //! \param V object to copy
+    fortranVectorF(const fortranVectorF<n>& V): fortranVector()
+    {
+      y=allocDoubleArray(n);
+      x=&(y[0]); size=n;deletable=false;
+      for(int i=0;i<n;i++)
+	x[i]=V.x[i];
+    }
     //! destructor
     ~fortranVectorF()
     {
-- 
2.43.0


From ccea6f8e8ec21aef7b8cb58c881ecf01e6d69f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 35/43] fix: Radau5: an error estimate which is not a number is
 not below one

---
 Radau5-NG/include/Radau5cc.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 84c2b6d..f367951 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -260,7 +260,8 @@ namespace odes
 #include "Ivdep.hpp"
       for(int i=1;i<=n;i++)
 	err+=pow(CONT1(i)/scal(i),2);
-      err=MAX(sqrt(err*n1),1.e-10);
+      err=sqrt(err*n1);
+      if(err<1.e-10) err=1.e-10; // (a NaN is kept: it is not a success)
  
       if(err>=1.0)
        if(first||reject)
@@ -273,7 +274,8 @@ namespace odes
 	   err=0.0;
 	   for(int i=1;i<=n;i++)
 	     err+=pow(CONT1(i)/scal(i),2);
-	  err=MAX(sqrt(err*n1),1.e-10);
+	   err=sqrt(err*n1);
+	   if(err<1.e-10) err=1.e-10;
 	 }
 
       return err;
@@ -586,7 +588,7 @@ namespace odes
 	  double err=estrad(y0,Y,x,first,reject);
 	  // new h.
 	  double fac=MIN(safe,cfac/(newt+2*nit));
-	  double quot=MAX(facr,MIN(facl,sqrt(sqrt(err))/fac));
+	  double quot=MAX(facr,MIN(sqrt(sqrt(err))/fac,facl));
 	  double hnew=h/quot;
 	  if(err<1.0)
 	    {
-- 
2.43.0


From fc36b42239deb1cc8ebfbfa8192721f86cef0728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 36/43] fix: Rock4L.hpp: restore the line endings of the file
 (changed by mistake in 11e5ebe)

---
 Rock4-L/include/Rock4L.hpp | 752 ++++++++++++++++++-------------------
 1 file changed, 376 insertions(+), 376 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index fd1b007..e6cbd0f 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -1,376 +1,376 @@
-#ifndef Rock4__h
-#define Rock4__h
-#include "Rock4Coeffs.hpp"
-#include "MacrosForCompilers.hpp"
-#include "AllocateDestroyVector.hpp"
-#include "OdesException.hpp"
-#include "switchAdr.hpp"
-#include <cmath>
-#include <cstdlib>
-using namespace std;
-namespace odes{
-///////////////////////////////////////////////////////////////////////////
-/// A replacement for A. Abdulle rock4.f code for Rock4 method.
-///  *We treat here linear and affine case* ie RHS must be:
-///        x-> Ax
-///    or 
-///        x-> Ax+ B with B independent of time.
-///
-/// Template arguments:
-///      - Fonc: Object function which defines the problem.
-///      - Affine: true iff we treat the affine case.
-///              
-///  The class Fonc must define the following public methods:
-///      1) contructor:  
-///                Fonc(int n) n: size (number of unknowns).
-///      2) destructor.
-///      3)  double rho()
-///            return spectral radius of A: 
-///      4) int size()        
-///            return n, the size of vectors (see contructor).
-///      5) void operator()(double * in, double * s, 
-///                            double a, double b,double *out)
-///           compute out[]= A*a* in[] +b s[]
-///      6) void operator()(double * in, double * s, 
-///                             double a, double b, double *g,double *out)
-///           compute out[]=A*a*in[]+ b*s[] +g[]
-///      7) void operator()(double * in, double * s,
-///                              double a, double b,double c,double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]
-///      8)  void operator()(double * in, double * s, 
-///                              double a, double b,double c,double *g,
-///                              double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]+ g[]
-///
-///    where in[], s[], g[] and out[] are vectors of size n.        
-//////////////////////////////////////////////////////////////////////////
-  template<class Fonc,bool Affine=false> class Rock4L
-  {
-    Fonc* Fp;
-    const int size;
-    double atol,rtol;//tolerances for time steps adaptation.
-    double uround,told;
-    double t; 
-    double *fn,*k1,*k2,*temp,*g0,*g1,*g2;
-    double *BigArray;
-    int mp[3],mdeg,funccal,nrej,nsteps,nacc,nstagesmax,sizesplit;
-    Rock4Coeffs Coeffs;
-    double ac[5][4],bc[5],hc[5];
-
-    //! We want to compute polynomial for the 2nd formula in Horner form.
-    //! so we must compute the coefficients in this form.
-    void makeHornerCoeffs()
-    {
-      hc[4]=ac[2][1]*ac[3][2]*ac[4][3]*bc[4]; 
-      hc[3]=ac[2][1]*ac[3][2]*bc[3] + ac[2][1]*ac[4][2]*bc[4] + 
-	ac[3][1]*ac[4][3]*bc[4] + ac[3][2]*ac[4][3]*bc[4];
-      hc[2]= ac[2][1]*bc[2] + ac[3][1]*bc[3] + ac[3][2]*bc[3] + 
-	ac[4][1]*bc[4] + ac[4][2]*bc[4] + ac[4][3]*bc[4];
-      hc[1]= bc[1] + bc[2] + bc[3] + bc[4];
-      hc[0]=1.;
-    } 
-    //! make sub arrays.
-    inline void splitBigArray()
-    {
-      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
-    }
-    //! permutate 3 adresses g0,g1,g2.
-    //! \param g0 
-    //! \param g1 
-    //! \param g2
-    inline void permut3(double *&g0,double *&g1,double *&g2)
-    {
-      double *temp=g0;
-      g0=g1; g1=g2;g2=temp;
-    }
-   
-    //! find degree of formula.
-    void mdegre(int& mdeg)
-    {
-      mp[2]=1;
-      //-------- Find the degree.--------      
-      for(int i=1;i<=50;i++)
-	{
-	  if ((Coeffs.ms(i)/mdeg)>=1)
-	    {
-	      mdeg=Coeffs.ms(i);
-	      mp[1]=i;
-	      break;
-	    }
-	  else
-	    mp[2]=mp[2]+Coeffs.ms(i)*2-1;
-	}
-    }
-    //! The heart of the computation; perform a dt step, in the linear
-    //! case.
-    //! \param y IN/OUT.
-    //! \param dt time step.
-    //! \note we solve dy/dt= Ay
-     void kernel1(double *y,double dt)
-    {
-      Fonc& F=*Fp;// told=0.;
-      double mz=mp[1],mr=mp[2];
-
-      splitBigArray();
-      //
-      //3 terms recurrence formula:
-      //
-      F(y,y,dt*Coeffs.recf(mr) ,1.0,g1);
- 
-      for(int i=2;i<=mdeg;i++)
-	{
-	  if(i==2)
-	    {
-	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
-	      double temp2=1.0-temp3;
-	      F(g1,y,temp1,temp2,temp3,g2);
-	      permut3(g0,g1,g2);
-
-	    }
-	  else
-	    {
-	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
-	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
-	      double temp2=1.0-temp3;
-	      F(g1,g0,temp1,temp2,temp3,g2);
-	      permut3(g0,g1,g2);
-	    }
-	}
-      switchAdr(g1,g0);
-      temp=g1;
-      funccal+=mdeg;
-      ++nsteps;
-      //
-      // result of the recurrence is always in g0.
-      //
-      // The second RK formula (4 steps).
-      //
-      //coefficients:
-      
-      ac[2][1]=dt*Coeffs.fpa(mz,1);
-      ac[3][1]=dt*Coeffs.fpa(mz,2);ac[3][2]=dt*Coeffs.fpa(mz,3);
-      ac[4][1]=dt*Coeffs.fpa(mz,4);ac[4][2]=dt*Coeffs.fpa(mz,5);
-      ac[4][3]=dt*Coeffs.fpa(mz,6);
-      bc[1]=dt*Coeffs.fpb(mz,1);bc[2]=dt*Coeffs.fpb(mz,2);
-      bc[3]=dt*Coeffs.fpb(mz,3);bc[4]=dt*Coeffs.fpb(mz,4);
-      makeHornerCoeffs();
-
-      //
- 
-      F(g0,g0,hc[4],hc[3],k1);
-      F(k1,g0,1.0,hc[2],temp);
-      F(temp,g0,1.0,hc[1],k1);
-      F(k1,g0,1.0,hc[0],y);
-      //
-      funccal+=4;
-
-    }
-    //! The heart of the computation; perform a dt step, in the affine
-    //! case.
-    //! \param y IN/OUT.
-    //! \param b the constant in time part of the RHS
-    //! \param dt time step.
-    //! \note we solve dy/dt= Ay + B, with a constant B.
-    void kernel2(double *y,double *b,double dt)
-    {
-   
-      //g1=temp;
-      Fonc& F=*Fp;// told=0.;
-      double mz=mp[1],mr=mp[2];
-
-      splitBigArray();
-      //
-      //3 terms recurrence formula:
-      //
-      F(y,y,dt*Coeffs.recf(mr) ,1.0,b,g1);
- 
-      for(int i=2;i<=mdeg;i++)
-	{
-	  if(i==2)
-	    {
-	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
-	      double temp2=1.0-temp3;
-	      F(g1,y,temp1,temp2,temp3,b,g2);
-	      permut3(g0,g1,g2);
-
-	    }
-	  else
-	    {
-	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
-	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
-	      double temp2=1.0-temp3;
-	      F(g1,g0,temp1,temp2,temp3,b,g2);
-	      permut3(g0,g1,g2);
-	    }
-	}
-      switchAdr(g1,g0);
-      temp=g1;
-      funccal+=mdeg;
-      ++nsteps;
-      //
-      // result of the recurrence is always in g0.
-      //
-      // The second RK formula (4 steps).
-      //
-      //coefficients:
-      
-      ac[2][1]=Coeffs.fpa(mz,1);
-      ac[3][1]=Coeffs.fpa(mz,2);ac[3][2]=Coeffs.fpa(mz,3);
-      ac[4][1]=Coeffs.fpa(mz,4);ac[4][2]=Coeffs.fpa(mz,5);
-      ac[4][3]=Coeffs.fpa(mz,6);
-      bc[1]=Coeffs.fpb(mz,1);bc[2]=Coeffs.fpb(mz,2);
-      bc[3]=Coeffs.fpb(mz,3);bc[4]=Coeffs.fpb(mz,4);
-      makeHornerCoeffs();
-      double dt2=dt*dt, dt3= dt2*dt;
-      //
-      F(g0,b,dt,dt,k1);// dt A g0+ dt b -> k1
-
-      // now we have a polynomial of degree 3 to evaluate: 
-      F(k1,k1,hc[4]*dt3,hc[3]*dt2,g1);
-      F(g1,k1,1.0,hc[2]*dt,g2);
-      F(g2,k1,1.0,hc[1],g1);
-      // finish:
-      ASSUME_ALIGNED(y);ASSUME_ALIGNED(g0);ASSUME_ALIGNED(g1);
-#include "Ivdep.hpp"
-      for(int i=0;i<size;i++)
-	y[i]=g0[i]+g1[i];
-      
-      funccal+=4;
-
-    }
-
-  public:
-    //! constructor
-    //! \param  F RHS.
-    Rock4L(Fonc& F): Fp(&F),size(Fp->size())
-    {
-      int bk=BLOCK_FACTOR/sizeof(double);
-      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
-      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
-      splitBigArray();
-       // do not allocate Vtemp. 
-      uround=1.e-16;
-    }
-    //! destructor
-    ~Rock4L()
-    {
-      //Suppress(BigArray);
-      destroyDoubleArray(BigArray);
-    }
-    
-    //! number of stages used (we count both methods).
-    inline int NbStages() const {return nstagesmax;}
-    //! number of RHS computed
-    inline int NbRhsComputed() const {return funccal;}
-    //! number of steps performed.
-    inline int NbSteps() const {return nsteps;}
-    //! return a correctly aligned vector, for unknowns.
-    //inline double* alloc_vec() {return Allocate(size);} 
-    //! delete a vector allocated with alloc_vec()
-    //inline void delete_vec(double * v){Suppress(v);}
-    //! number of unknowns.
-    inline int nbUnkn() const {return size;}
-    //! value of "time":
-    inline double Time() const {return t;}
-    
-    //! operator() performs the step IN THE LINEAR CASE, delegating to kernel1.
-    //! \param  y IN/OUT. Initial values on input, final values on output.
-    //! \param t0 initial value of time
-    //! \param tend final time.
-    //! \param _h proposed time step.
-    //! \note We integrate from t0 to tend
-    //! \note  we solve dy/dt= Ay.
-    void operator()(double *y,double t0,double tend, double _h)
-    {
-      if(Affine)
-	throw OdesException("Rock4::operator() called as affine");
-      int mdego=0; nsteps=0;
-      nrej=0; nacc=0;nstagesmax=0;
-      Fonc& F=*Fp;
-      int pass=0;
-      funccal=0;
-      t=t0;
-      double h=_h;
-      told=0.0;
-      double eigmax=F.rho();
-      
-      while(t<tend)
-	{
-	  if(1.01e0*h>=abs(tend-t))
-	    h=abs(tend-t);
-
-	  if (h<10.0e0*uround)
-	    throw OdesException("Rock4: step too small h=",h,"limit:",
-				     10.0e0*uround);
-
-	  ++pass;
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  if (mdeg>152)
-	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",mdeg,
-				   "You should decrease time step");
-	  mdeg=max(mdeg,5)-4;
-	  if(mdeg!=mdego)
-	    {
-	      mdegre(mdeg);
-	      mdego=mdeg;
-	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
-	    }
-	  kernel1(y,h);
-	  t=h==abs(tend-t)? tend:t+h;
-	  if(t+h>tend) h=tend-t;
-	}
-    }
-    //! operator() performs the step IN THE AFFINE CASE, delegating to kernel1.
-    //! \param  y IN/OUT. Initial values on input, final values on output.
-    //! \param b RHS.
-    //! \param t0 initial value of time
-    //! \param tend final time.
-    //! \param _h proposed time step.
-    //! \note We integrate from t0 to tend
-    //! \note we solve dy/dt= Ay+b.
-    void operator()(double *y,double *b, double t0,double tend, double _h)
-    {
-      if(!Affine)
-	throw OdesException("Rock4::operator() called as not affine");
-      int mdego=0; nsteps=0;
-      nrej=0; nacc=0;nstagesmax=0;
-      Fonc& F=*Fp;
-      int pass=0;
-      funccal=0;
-      t=t0;
-      double h=_h;
-      told=0.0;
-      double eigmax=F.rho();
-      
-      while(t<tend)
-	{
-	  if(1.01e0*h>=abs(tend-t))
-	    h=abs(tend-t);
-
-	  if (h<10.0e0*uround)
-	    throw OdesException("Rock4: step too small h=",h,"limit:",
-				     10.0e0*uround);
-
-	  ++pass;
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  if (mdeg>152)
-	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",mdeg,
-				   "You should decrease time step");
-	  mdeg=max(mdeg,5)-4;
-	  if(mdeg!=mdego)
-	    {
-	      mdegre(mdeg);
-	      mdego=mdeg;
-	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
-	    }
-	  kernel2(y,b,h);
-	  t=h==abs(tend-t)? tend:t+h;
-	  if(t+h>tend) h=tend-t;
-	}
-    }
-  };
-};
-
-#endif
+#ifndef Rock4__h
+#define Rock4__h
+#include "Rock4Coeffs.hpp"
+#include "MacrosForCompilers.hpp"
+#include "AllocateDestroyVector.hpp"
+#include "OdesException.hpp"
+#include "switchAdr.hpp"
+#include <cmath>
+#include <cstdlib>
+using namespace std;
+namespace odes{
+///////////////////////////////////////////////////////////////////////////
+/// A replacement for A. Abdulle rock4.f code for Rock4 method.
+///  *We treat here linear and affine case* ie RHS must be:
+///        x-> Ax
+///    or 
+///        x-> Ax+ B with B independent of time.
+///
+/// Template arguments:
+///      - Fonc: Object function which defines the problem.
+///      - Affine: true iff we treat the affine case.
+///              
+///  The class Fonc must define the following public methods:
+///      1) contructor:  
+///                Fonc(int n) n: size (number of unknowns).
+///      2) destructor.
+///      3)  double rho()
+///            return spectral radius of A: 
+///      4) int size()        
+///            return n, the size of vectors (see contructor).
+///      5) void operator()(double * in, double * s, 
+///                            double a, double b,double *out)
+///           compute out[]= A*a* in[] +b s[]
+///      6) void operator()(double * in, double * s, 
+///                             double a, double b, double *g,double *out)
+///           compute out[]=A*a*in[]+ b*s[] +g[]
+///      7) void operator()(double * in, double * s,
+///                              double a, double b,double c,double *out)
+///           compute out[]==A*a*in[]+ b*in[] + c*s[]
+///      8)  void operator()(double * in, double * s, 
+///                              double a, double b,double c,double *g,
+///                              double *out)
+///           compute out[]==A*a*in[]+ b*in[] + c*s[]+ g[]
+///
+///    where in[], s[], g[] and out[] are vectors of size n.        
+//////////////////////////////////////////////////////////////////////////
+  template<class Fonc,bool Affine=false> class Rock4L
+  {
+    Fonc* Fp;
+    const int size;
+    double atol,rtol;//tolerances for time steps adaptation.
+    double uround,told;
+    double t; 
+    double *fn,*k1,*k2,*temp,*g0,*g1,*g2;
+    double *BigArray;
+    int mp[3],mdeg,funccal,nrej,nsteps,nacc,nstagesmax,sizesplit;
+    Rock4Coeffs Coeffs;
+    double ac[5][4],bc[5],hc[5];
+
+    //! We want to compute polynomial for the 2nd formula in Horner form.
+    //! so we must compute the coefficients in this form.
+    void makeHornerCoeffs()
+    {
+      hc[4]=ac[2][1]*ac[3][2]*ac[4][3]*bc[4]; 
+      hc[3]=ac[2][1]*ac[3][2]*bc[3] + ac[2][1]*ac[4][2]*bc[4] + 
+	ac[3][1]*ac[4][3]*bc[4] + ac[3][2]*ac[4][3]*bc[4];
+      hc[2]= ac[2][1]*bc[2] + ac[3][1]*bc[3] + ac[3][2]*bc[3] + 
+	ac[4][1]*bc[4] + ac[4][2]*bc[4] + ac[4][3]*bc[4];
+      hc[1]= bc[1] + bc[2] + bc[3] + bc[4];
+      hc[0]=1.;
+    } 
+    //! make sub arrays.
+    inline void splitBigArray()
+    {
+      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
+    }
+    //! permutate 3 adresses g0,g1,g2.
+    //! \param g0 
+    //! \param g1 
+    //! \param g2
+    inline void permut3(double *&g0,double *&g1,double *&g2)
+    {
+      double *temp=g0;
+      g0=g1; g1=g2;g2=temp;
+    }
+   
+    //! find degree of formula.
+    void mdegre(int& mdeg)
+    {
+      mp[2]=1;
+      //-------- Find the degree.--------      
+      for(int i=1;i<=50;i++)
+	{
+	  if ((Coeffs.ms(i)/mdeg)>=1)
+	    {
+	      mdeg=Coeffs.ms(i);
+	      mp[1]=i;
+	      break;
+	    }
+	  else
+	    mp[2]=mp[2]+Coeffs.ms(i)*2-1;
+	}
+    }
+    //! The heart of the computation; perform a dt step, in the linear
+    //! case.
+    //! \param y IN/OUT.
+    //! \param dt time step.
+    //! \note we solve dy/dt= Ay
+     void kernel1(double *y,double dt)
+    {
+      Fonc& F=*Fp;// told=0.;
+      double mz=mp[1],mr=mp[2];
+
+      splitBigArray();
+      //
+      //3 terms recurrence formula:
+      //
+      F(y,y,dt*Coeffs.recf(mr) ,1.0,g1);
+ 
+      for(int i=2;i<=mdeg;i++)
+	{
+	  if(i==2)
+	    {
+	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
+	      double temp2=1.0-temp3;
+	      F(g1,y,temp1,temp2,temp3,g2);
+	      permut3(g0,g1,g2);
+
+	    }
+	  else
+	    {
+	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
+	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
+	      double temp2=1.0-temp3;
+	      F(g1,g0,temp1,temp2,temp3,g2);
+	      permut3(g0,g1,g2);
+	    }
+	}
+      switchAdr(g1,g0);
+      temp=g1;
+      funccal+=mdeg;
+      ++nsteps;
+      //
+      // result of the recurrence is always in g0.
+      //
+      // The second RK formula (4 steps).
+      //
+      //coefficients:
+      
+      ac[2][1]=dt*Coeffs.fpa(mz,1);
+      ac[3][1]=dt*Coeffs.fpa(mz,2);ac[3][2]=dt*Coeffs.fpa(mz,3);
+      ac[4][1]=dt*Coeffs.fpa(mz,4);ac[4][2]=dt*Coeffs.fpa(mz,5);
+      ac[4][3]=dt*Coeffs.fpa(mz,6);
+      bc[1]=dt*Coeffs.fpb(mz,1);bc[2]=dt*Coeffs.fpb(mz,2);
+      bc[3]=dt*Coeffs.fpb(mz,3);bc[4]=dt*Coeffs.fpb(mz,4);
+      makeHornerCoeffs();
+
+      //
+ 
+      F(g0,g0,hc[4],hc[3],k1);
+      F(k1,g0,1.0,hc[2],temp);
+      F(temp,g0,1.0,hc[1],k1);
+      F(k1,g0,1.0,hc[0],y);
+      //
+      funccal+=4;
+
+    }
+    //! The heart of the computation; perform a dt step, in the affine
+    //! case.
+    //! \param y IN/OUT.
+    //! \param b the constant in time part of the RHS
+    //! \param dt time step.
+    //! \note we solve dy/dt= Ay + B, with a constant B.
+    void kernel2(double *y,double *b,double dt)
+    {
+   
+      //g1=temp;
+      Fonc& F=*Fp;// told=0.;
+      double mz=mp[1],mr=mp[2];
+
+      splitBigArray();
+      //
+      //3 terms recurrence formula:
+      //
+      F(y,y,dt*Coeffs.recf(mr) ,1.0,b,g1);
+ 
+      for(int i=2;i<=mdeg;i++)
+	{
+	  if(i==2)
+	    {
+	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
+	      double temp2=1.0-temp3;
+	      F(g1,y,temp1,temp2,temp3,b,g2);
+	      permut3(g0,g1,g2);
+
+	    }
+	  else
+	    {
+	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
+	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
+	      double temp2=1.0-temp3;
+	      F(g1,g0,temp1,temp2,temp3,b,g2);
+	      permut3(g0,g1,g2);
+	    }
+	}
+      switchAdr(g1,g0);
+      temp=g1;
+      funccal+=mdeg;
+      ++nsteps;
+      //
+      // result of the recurrence is always in g0.
+      //
+      // The second RK formula (4 steps).
+      //
+      //coefficients:
+      
+      ac[2][1]=Coeffs.fpa(mz,1);
+      ac[3][1]=Coeffs.fpa(mz,2);ac[3][2]=Coeffs.fpa(mz,3);
+      ac[4][1]=Coeffs.fpa(mz,4);ac[4][2]=Coeffs.fpa(mz,5);
+      ac[4][3]=Coeffs.fpa(mz,6);
+      bc[1]=Coeffs.fpb(mz,1);bc[2]=Coeffs.fpb(mz,2);
+      bc[3]=Coeffs.fpb(mz,3);bc[4]=Coeffs.fpb(mz,4);
+      makeHornerCoeffs();
+      double dt2=dt*dt, dt3= dt2*dt;
+      //
+      F(g0,b,dt,dt,k1);// dt A g0+ dt b -> k1
+
+      // now we have a polynomial of degree 3 to evaluate: 
+      F(k1,k1,hc[4]*dt3,hc[3]*dt2,g1);
+      F(g1,k1,1.0,hc[2]*dt,g2);
+      F(g2,k1,1.0,hc[1],g1);
+      // finish:
+      ASSUME_ALIGNED(y);ASSUME_ALIGNED(g0);ASSUME_ALIGNED(g1);
+#include "Ivdep.hpp"
+      for(int i=0;i<size;i++)
+	y[i]=g0[i]+g1[i];
+      
+      funccal+=4;
+
+    }
+
+  public:
+    //! constructor
+    //! \param  F RHS.
+    Rock4L(Fonc& F): Fp(&F),size(Fp->size())
+    {
+      int bk=BLOCK_FACTOR/sizeof(double);
+      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
+      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
+      splitBigArray();
+       // do not allocate Vtemp. 
+      uround=1.e-16;
+    }
+    //! destructor
+    ~Rock4L()
+    {
+      //Suppress(BigArray);
+      destroyDoubleArray(BigArray);
+    }
+    
+    //! number of stages used (we count both methods).
+    inline int NbStages() const {return nstagesmax;}
+    //! number of RHS computed
+    inline int NbRhsComputed() const {return funccal;}
+    //! number of steps performed.
+    inline int NbSteps() const {return nsteps;}
+    //! return a correctly aligned vector, for unknowns.
+    //inline double* alloc_vec() {return Allocate(size);} 
+    //! delete a vector allocated with alloc_vec()
+    //inline void delete_vec(double * v){Suppress(v);}
+    //! number of unknowns.
+    inline int nbUnkn() const {return size;}
+    //! value of "time":
+    inline double Time() const {return t;}
+    
+    //! operator() performs the step IN THE LINEAR CASE, delegating to kernel1.
+    //! \param  y IN/OUT. Initial values on input, final values on output.
+    //! \param t0 initial value of time
+    //! \param tend final time.
+    //! \param _h proposed time step.
+    //! \note We integrate from t0 to tend
+    //! \note  we solve dy/dt= Ay.
+    void operator()(double *y,double t0,double tend, double _h)
+    {
+      if(Affine)
+	throw OdesException("Rock4::operator() called as affine");
+      int mdego=0; nsteps=0;
+      nrej=0; nacc=0;nstagesmax=0;
+      Fonc& F=*Fp;
+      int pass=0;
+      funccal=0;
+      t=t0;
+      double h=_h;
+      told=0.0;
+      double eigmax=F.rho();
+      
+      while(t<tend)
+	{
+	  if(1.01e0*h>=abs(tend-t))
+	    h=abs(tend-t);
+
+	  if (h<10.0e0*uround)
+	    throw OdesException("Rock4: step too small h=",h,"limit:",
+				     10.0e0*uround);
+
+	  ++pass;
+	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  if (mdeg>152)
+	    throw OdesException("Rock4: degree limited to 152."
+				   "Here you need:",mdeg,
+				   "You should decrease time step");
+	  mdeg=max(mdeg,5)-4;
+	  if(mdeg!=mdego)
+	    {
+	      mdegre(mdeg);
+	      mdego=mdeg;
+	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
+	    }
+	  kernel1(y,h);
+	  t=h==abs(tend-t)? tend:t+h;
+	  if(t+h>tend) h=tend-t;
+	}
+    }
+    //! operator() performs the step IN THE AFFINE CASE, delegating to kernel1.
+    //! \param  y IN/OUT. Initial values on input, final values on output.
+    //! \param b RHS.
+    //! \param t0 initial value of time
+    //! \param tend final time.
+    //! \param _h proposed time step.
+    //! \note We integrate from t0 to tend
+    //! \note we solve dy/dt= Ay+b.
+    void operator()(double *y,double *b, double t0,double tend, double _h)
+    {
+      if(!Affine)
+	throw OdesException("Rock4::operator() called as not affine");
+      int mdego=0; nsteps=0;
+      nrej=0; nacc=0;nstagesmax=0;
+      Fonc& F=*Fp;
+      int pass=0;
+      funccal=0;
+      t=t0;
+      double h=_h;
+      told=0.0;
+      double eigmax=F.rho();
+      
+      while(t<tend)
+	{
+	  if(1.01e0*h>=abs(tend-t))
+	    h=abs(tend-t);
+
+	  if (h<10.0e0*uround)
+	    throw OdesException("Rock4: step too small h=",h,"limit:",
+				     10.0e0*uround);
+
+	  ++pass;
+	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  if (mdeg>152)
+	    throw OdesException("Rock4: degree limited to 152."
+				   "Here you need:",mdeg,
+				   "You should decrease time step");
+	  mdeg=max(mdeg,5)-4;
+	  if(mdeg!=mdego)
+	    {
+	      mdegre(mdeg);
+	      mdego=mdeg;
+	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
+	    }
+	  kernel2(y,b,h);
+	  t=h==abs(tend-t)? tend:t+h;
+	  if(t+h>tend) h=tend-t;
+	}
+    }
+  };
+};
+
+#endif
-- 
2.43.0


From 861d30f1c7d06672c7e11339fc66f413d13c8206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 37/43] fix: SymplecticRK: precision of the Gauss coefficients

Coefficients a of the double version had 12 digits only, and all those of
the long double version went through double.
---
 SymplecticRK/sage/generated_coeffs.hpp | 568 ++++++++++++-------------
 1 file changed, 284 insertions(+), 284 deletions(-)

diff --git a/SymplecticRK/sage/generated_coeffs.hpp b/SymplecticRK/sage/generated_coeffs.hpp
index be5e700..08e7c64 100644
--- a/SymplecticRK/sage/generated_coeffs.hpp
+++ b/SymplecticRK/sage/generated_coeffs.hpp
@@ -1,275 +1,5 @@
 template<> void icoeffs<2,double>(double* a,double* b)
 {
-initializer_list<double> la={0.25,-0.0386751345948,
-0.538675134595,0.25};
-
-initializer_list<double> lb={0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000,0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<3,double>(double* a,double* b)
-{
-initializer_list<double> la={0.138888888889,-0.0359766675249,0.00978944401531,
-0.300263194981,0.222222222222,-0.0224854172031,
-0.267988333762,0.480421111969,0.138888888889};
-
-initializer_list<double> lb={0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778,0.4444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444,0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<4,double>(double* a,double* b)
-{
-initializer_list<double> la={0.0869637112844,-0.026604180085,0.0126274626894,-0.0035551496858,
-0.1881181175,0.163036288716,-0.0278804286025,0.00673550059454,
-0.167191921974,0.353953006034,0.163036288716,-0.0141906949311,
-0.177482572255,0.313445114742,0.352676757516,0.0869637112844};
-
-initializer_list<double> lb={0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719588,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719589,0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<5,double>(double* a,double* b)
-{
-initializer_list<double> la={0.059231721264,-0.0195703643591,0.0112544008186,0.00158811296787,-0.00559379366081,
-0.12815100567,0.119657167625,-0.0245921146196,-0.00276899439877,0.0103182806707,
-0.113776288004,0.260004651681,0.142222222222,0.00468715452387,-0.020690316431,
-0.11687532956,0.24490812891,0.273190043626,0.059231721264,0.258884699609,
-0.121232436927,0.228996054579,0.309036559064,-0.00968756314195,0.119657167625};
-
-initializer_list<double> lb={0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290784,0.2844444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444446,0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290788};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<6,double>(double* a,double* b)
-{
-initializer_list<double> la={0.0428311230948,-0.0147637259972,0.00932505070648,-0.00566885804948,0.0028544333151,-0.000812780171265,
-0.0926734914304,0.090190393262,-0.0203001022932,0.0103631562402,-0.00488719292804,0.00135556105549,
-0.0822479226128,0.196032162333,0.116978483643,-0.0204825277457,0.00798999189966,-0.00207562578487,
-0.0877378719745,0.172390794624,0.254439495032,0.116978483643,-0.0156513758092,0.00341432357674,
-0.0843066851341,0.185267979452,0.223593811046,0.25425706958,0.090190393262,-0.00701124524079,
-0.0864750263608,0.177526353209,0.239625825336,0.22463191658,0.195144512521,0.0428311230948};
-
-initializer_list<double> lb={0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461046,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213883,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939998,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939993,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213892,0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461044};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<7,double>(double* a,double* b)
-{
-initializer_list<double> la={0.0323712415422,-0.0114510172832,0.00763320387242,-0.00513373356323,0.00317505877369,-0.00160681903705,0.000458109523749,
-0.0700435413787,0.0699263478723,-0.0165900065788,0.00934962278344,-0.0053970919319,0.00264584386673,-0.000743850190172,
-0.0621539357873,0.152005522058,0.0954575126263,-0.0183752442155,0.00871256259848,-0.00395358015881,0.00107671561563,
-0.0663329286177,0.133595769224,0.207701880766,0.104489795918,-0.0167868555134,0.00625692652076,-0.00159044553325,
-0.0636657674688,0.143806275903,0.182202462654,0.227354836052,0.0954575126263,-0.0121528263132,0.00258854729708,
-0.0654863332746,0.137206851878,0.196312117184,0.199629969053,0.207505031831,0.0699263478723,-0.00530105829429,
-0.0642843735607,0.141459514782,0.187739966479,0.2141133254,0.18328182138,0.151303713028,0.0323712415422};
-
-initializer_list<double> lb={0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590650,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132896,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048930,0.2089795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918361,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048914,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132877,0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590471};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<8,double>(double* a,double* b)
-{
-initializer_list<double> la={0.0253071340726,-0.00910594330597,0.00628083114703,-0.00448301561305,0.00307849136833,-0.00191767525464,0.000972757664059,-0.000277508327117,
-0.0547593217676,0.0555952586133,-0.0136397962358,0.00814970885836,-0.00521535208915,0.00313975298546,-0.00156493491095,0.000442802304342,
-0.0485875359989,0.120859524997,0.0784266614695,-0.0159751033619,0.00837173272023,-0.0046434658621,0.00222571477528,-0.000618805695251,
-0.0518655209706,0.106193490148,0.170671134275,0.0906709458446,-0.016021041321,0.00724120656122,-0.00319781431036,0.000859236584265,
-0.0497550315609,0.114388331537,0.149612116378,0.19736293301,0.0906709458446,-0.0138178113356,0.00499702707834,-0.00125125282539,
-0.0512330738404,0.108964802451,0.161496788801,0.172970158969,0.197316995051,0.0784266614695,-0.00966900777049,0.00202673214628,
-0.0501714658408,0.112755452138,0.153713569953,0.186557243778,0.173192182831,0.170493119175,0.0555952586133,-0.00414505362237,
-0.0508917764723,0.110217759563,0.158770998194,0.178263400321,0.185824907302,0.150572491792,0.120296460533,0.0253071340726};
-
-initializer_list<double> lb={0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923686,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244513,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271998,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781091084,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781090983,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271946,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244531,0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923785};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<9,double>(double* a,double* b)
-{
-initializer_list<double> la={0.0203185970904,-0.00739786856615,0.0052220035921,-0.00387345129174,0.00283136945007,0.00122660978881,-0.000622964091649,0.000177778462745,-0.00196219418839,
-0.0439655272265,0.0451620401737,-0.0113354640123,0.00703476680173,-0.00478827613102,-0.00196440573995,0.000987172103666,-0.000280274237641,0.00320336015198,
-0.0390086533963,0.0981815119598,0.0651526741007,-0.0137708339866,0.00766417562464,0.00277082889276,-0.00136167198307,0.000382532112918,-0.0047135864678,
-0.0416450870273,0.0862554727725,0.141795216041,0.07808676926,-0.0146189578759,-0.00393283991504,0.00185268620082,-0.000510573474929,0.00730042826218,
-0.0399403728698,0.0929433722727,0.124257110411,0.170000445255,0.0825598387503,0.00604823779069,-0.00261929192529,0.000696821310952,-0.0138269067353,
-0.0402546620679,0.0916857523305,0.127534519309,0.160887124988,0.157455501876,0.0651526741007,-0.00785743161242,0.0016285407845,0.169944372507,
-0.0409174684184,0.0893369082438,0.132269753941,0.152970178368,0.169907953632,0.141640812214,0.0451620401737,-0.00332833304574,0.149138771718,
-0.040459415718,0.0909470444391,0.129078738413,0.158135732708,0.162288308051,0.125083344609,0.0977219489136,0.0203185970904,0.160046989812,
-0.0411477676557,0.0884713941466,0.134238188117,0.148873110258,0.179738635377,-0.0114898678397,0.00406860757492,-0.00100789284654,0.07808676926};
-
-initializer_list<double> lb={0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958263,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353767,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188599,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754460237,0.1651196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441912,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188832,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353150,0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958472,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754459123};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<10,double>(double* a,double* b)
-{
-initializer_list<double> la={0.0166678360772,-0.00612068029234,0.00439200373029,-0.00334535050883,0.00254756897028,-0.00188262038694,0.0013108146277,-0.000820986353138,0.000417243835668,-0.000119093958462,
-0.0360661525782,0.0373628372876,-0.00953137359189,0.00607228446174,-0.00430404581296,0.00306851861087,-0.00209411395745,0.0012962496555,-0.000654328115142,0.000186135539,
-0.0319991179775,0.0812275701119,0.054771590629,-0.0118776128915,0.00687814639771,-0.00450274329686,0.00294087333141,-0.00177613374657,0.000884246091931,-0.00024983875397,
-0.0341639921791,0.0713553690746,0.119207290549,0.0673166798275,-0.0130965195472,0.00694886598384,-0.00414845352723,0.00239281424177,-0.00116229795133,0.00032456210553,
-0.0327609312913,0.0769022997036,0.104444079563,0.14656624555,0.0738810561787,-0.0131122091696,0.00633145505482,-0.00333810079768,0.00155179916885,-0.000424726034358,
-0.0337603981887,0.0731738754064,0.112881282056,0.1283019046,0.160874321527,0.0738810561787,-0.0119328858954,0.0050991016949,-0.00217662512836,0.00057474086306,
-0.0330111100488,0.0758879725266,0.107150367016,0.138781813182,0.140813246374,0.160858631905,0.0673166798275,-0.00966410929077,0.00337030550065,-0.000828320024765,
-0.0335855109083,0.0738414284834,0.111319315005,0.131692486324,0.152264855654,0.14088396596,0.146510972547,0.054771590629,-0.00650189553657,0.00133655417683,
-0.0331495366153,0.0753800026904,0.108246931602,0.136727473612,0.144693593747,0.15206615817,0.128561075193,0.11907455485,0.0373628372876,-0.00273048042385,
-0.0334547661128,0.0743084307396,0.110364167611,0.133322545027,0.149644732744,0.145214543387,0.137978710164,0.105151177528,0.0808463548676,0.0166678360772};
-
-initializer_list<double> lb={0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689192214,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213795469,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104743126,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104384169,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500566581,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500571159,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104387458,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104745261,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213757273,0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689198219};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<11,double>(double* a,double* b)
-{
-initializer_list<double> la={0.013917141779,-0.00514325562983,0.00373560374914,-0.00290037905138,0.00227274215265,-0.00175240116264,0.00130248911732,-0.000909279657712,0.000570136062283,-0.000289875324978,8.27488930846e-05,
-0.0301142391948,0.0313950923662,-0.00810562697908,0.00526282127354,-0.00383743668169,0.00285354676448,-0.00207783291715,0.00143267781288,-0.000891466711988,0.000451184930916,-0.000128498936997,
-0.0267179838503,0.0682542809172,0.0465725527319,-0.0102895248153,0.00612667324767,-0.00418053753705,0.0029106679541,-0.00195573987509,0.00119821656507,-0.000600947942995,0.000170372117196,
-0.0285266689062,0.0599560307356,0.101365041154,0.058298441148,-0.0116536925867,0.0064383812978,-0.00409164865278,0.00262061890572,-0.00156237108007,0.000771530960015,-0.00021706539084,
-0.0273528599994,0.0646238924303,0.0888021849344,0.126937527092,0.0657011361276,-0.0121240615804,0.00621926257425,-0.00363063338386,0.00206324037555,-0.000992886275646,0.000275899729895,
-0.0281917210619,0.0614771890632,0.0959986109029,0.111095774316,0.143076752307,0.0682312716945,-0.0116744800519,0.00550110797963,-0.00285350543903,0.00131299566925,-0.00035743750378,
-0.0275583838282,0.0637830710081,0.0910818650883,0.12022751568,0.125183009681,0.148586604969,0.0657011361276,-0.0103406447965,0.00434292052948,-0.0018337076978,0.000481423558707,
-0.0280513489489,0.0620186537724,0.0947074765439,0.11397626339,0.135493920908,0.130024162091,0.143055964842,0.058298441148,-0.0082199356897,0.00283415399685,-0.000692385348154,
-0.0276639114409,0.0633911326754,0.0919468888988,0.118552622171,0.128491604301,0.140643080926,0.125275599007,0.126886407111,0.0465725527319,-0.0054640961847,0.00111629970782,
-0.0279627824951,0.0623389998015,0.0940365721759,0.115164204483,0.133480105172,0.133608996624,0.135239708937,0.111334061022,0.101250732443,0.0313950923662,-0.00227995563674,
-0.027751534665,0.0630800600574,0.0925749694016,0.117506161954,0.130099783138,0.138214944552,0.129129530102,0.119497261347,0.0894095017147,0.0679334403623,0.013917141779};
-
-initializer_list<double> lb={0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838649929,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402346001,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914408754,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325724799,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276299487,0.1364625433889503153572417641681710945780209849473918737988002057266126530195794265058334322403586472850542114611378680642749906819170888434957699026963096227165491234755304019373283442547511811581075650339719603788867858131927395996660065924135188204452273716342980412244481508550772620036689300758564834854,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276297309,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325736902,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914500390,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402413194,0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838632041};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<12,double>(double* a,double* b)
-{
-initializer_list<double> la={0.0117938340966,-0.00437990215768,0.00321056964126,-0.00252868076292,0.00202324519895,0.00124774475193,-0.00093049983663,0.000650624788775,-0.000408237882558,0.00020761510848,-5.92710487057e-05,-0.00160735902089,
-0.0255198232326,0.0267348314988,-0.00696570366256,0.00458737722346,-0.00341487831326,-0.00198873604147,0.00146425936526,-0.00101552961889,0.000633880729667,-0.000321341337252,9.15875660364e-05,0.00261580117231,
-0.0226415082465,0.0581230577547,0.0400195821358,-0.00896632804601,0.00544880489817,0.00278156916562,-0.00199435710193,0.00136062625077,-0.000840553839985,0.000423460056141,-0.00012030834911,-0.00382839826778,
-0.0241748261227,0.0510550484294,0.0871038538724,0.0507918566808,-0.0103577470217,-0.00390204370621,0.0026638869907,-0.00176593366081,0.00107205559232,-0.000534534766346,0.000151074627301,0.00588867969619,
-0.0231788873634,0.0550336735249,0.0763035605835,0.110596236161,0.0583731341346,0.00591690882966,-0.00367597498519,0.00231791162581,-0.0013672957437,0.000670629185517,-0.000188000196715,-0.0110754199818,
-0.0233514110135,0.0543232717216,0.0782519909929,0.104765642235,0.11120113308,0.0622867614534,-0.0103795246551,0.00480193492467,-0.00245976665589,0.00112275870417,-0.000304349193693,0.135655440636,
-0.02377566839,0.0527990338121,0.0814064600154,0.0992658017357,0.120422243254,0.135648942888,0.0583731341346,-0.00901252279942,0.00373560368819,-0.00156401052723,0.000408780829862,0.118656614077,
-0.023436593566,0.054004197764,0.0789671086794,0.103349647022,0.114082381278,0.118684843211,0.127104015291,0.0507918566808,-0.00706468960073,0.00241461456827,-0.000587157929441,0.128475566613,
-0.0237079765424,0.0530462029415,0.0808797181117,0.100223087111,0.118740625371,0.128401921174,0.111297463371,0.110550041408,0.0400195821358,-0.00465339475702,0.000946159946801,0.121791953741,
-0.0234960806272,0.0537910043349,0.079405283542,0.10259924298,0.115282008904,0.121957721734,0.120161146582,0.0969963361381,0.0870048679342,0.0267348314988,-0.00193215503937,0.126562258948,
-0.023646939242,0.0532620478892,0.0804474021542,0.100933088573,0.117676768106,0.126180881928,0.11472302307,0.104112394124,0.0768285946304,0.0578495651553,0.0117938340966,0.123325778155,
-0.0238920173869,0.0523469042935,0.0824989309276,0.0967817784369,0.127125792924,-0.0110819177291,0.00554513518951,-0.00318192887322,0.00178717327876,-0.000853608723971,0.000236257179789,0.0622867614534};
-
-initializer_list<double> lb={0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952049363,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933437884,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485193300,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511860996273,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579509954,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622278147,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579580542,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511861010094,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485555961,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933242592,0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952155014,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622334800};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<13,double>(double* a,double* b)
-{
-initializer_list<double> la={0.0101210011913,-0.00377307158533,0.00278561575606,-0.00221827038405,0.00180306469115,-0.00146428618398,0.00117219434523,-0.000913582925477,0.000682707775015,-0.000477846825328,0.000299962625259,-0.000152576299212,4.35604600184e-05,
-0.0219001283175,0.0230303749594,-0.00604331982545,0.00402367675567,-0.00304249472623,0.00238203498777,-0.00186724640081,0.00143647464828,-0.00106442244601,0.000740852231417,-0.000463345539788,0.000235139088197,-6.70516615042e-05,
-0.0194299477196,0.0500695755433,0.0347183775549,-0.00786303206731,0.00485274615855,-0.00348400333661,0.00260906242968,-0.00195372076841,0.00142329508753,-0.000979733532988,0.00060835505903,-0.000307359452503,8.74442385103e-05,
-0.0207461084445,0.0439800566806,0.0755663734122,0.0445364951905,-0.0092209168426,0.00535465088569,-0.00365522679985,0.00260442900235,-0.00184200989476,0.00124460812211,-0.000763750235757,0.000383103892798,-0.000108591577935,
-0.0198907528983,0.0474094387268,0.0661938972977,0.0969774293977,0.0519540118842,-0.0100633070333,0.00553442491475,-0.00358522008286,0.00240894627536,-0.00157902463821,0.000951119931435,-0.000471841291131,0.000132996200941,
-0.0205039757595,0.0450910064519,0.0715749421922,0.0848574338709,0.113150057093,0.0565707950657,-0.0103514560922,0.00539400389969,-0.00329262769908,0.0020503890674,-0.00119902884865,0.000584799095209,-0.000163447833222,
-0.0200379395811,0.0468004290851,0.0678786934545,0.0918730747241,0.0989622717612,0.123214025135,0.0581378883077,-0.0100724350036,0.00494575200722,-0.00280008434311,0.0015580616554,-0.000739679166273,0.000204062801555,
-0.0204054502159,0.0454759508237,0.0706357839585,0.0870226013136,0.107200651468,0.107747586232,0.126627232708,0.0565707950657,-0.00924203332466,0.00421555651003,-0.00213818708227,0.000969743466943,-0.000261973376815,
-0.0201090061817,0.04653259121,0.0684856351785,0.0906520150192,0.101499077493,0.116726810214,0.110741351701,0.123204897165,0.0519540118842,-0.00790443901671,0.00324285781214,-0.00134868880796,0.000351249484407,
-0.0203505939606,0.0456776460261,0.0702005053457,0.0878283822589,0.105750033663,0.110537161129,0.119931003415,0.107786939246,0.113128940611,0.0445364951905,-0.00612961830229,0.00208069323826,-0.000504106061862,
-0.0201545581441,0.0463681093714,0.0688284000509,0.090052723914,0.102484728681,0.1150953109,0.113666714186,0.116625593468,0.0990552776099,0.0969360224483,0.0347183775549,-0.0040088256244,0.000812054663012,
-0.0203090540442,0.0458256108307,0.0699001006497,0.0883321381496,0.104972446214,0.111705115483,0.118143023016,0.110759555144,0.106950518495,0.0850493136253,0.0754800749353,0.0230303749594,-0.00165812593487,
-0.0201984419226,0.0462133262181,0.0691367924846,0.0895508372063,0.103225315993,0.114055173057,0.11510358227,0.114605876315,0.102104959077,0.091291260765,0.0666511393538,0.0498338215042,0.0101210011913};
-
-initializer_list<double> lb={0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123803064,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309061141179,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547440614369,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706180743704,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196847519,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765327175824,0.1162757766154369550972947576344179740783137386533989930593327196723800120403517006913610310213706817103420500023896627293230689834086437483040879644276247672851069454466057862661259264655868052471449074845678242281638885035488432091828695225298621902018505415108811712208315604919001522398125794729191249933,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765326548185,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196999882,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706179183318,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547443278613,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309060101292,0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123836934};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<14,double>(double* a,double* b)
-{
-initializer_list<double> la={0.00877986508294,-0.00328311623043,0.00243769977191,-0.00195809929678,0.00161116775848,-0.0013305215627,0.00108963888466,-0.00087630200574,0.00068469369104,-0.000512348412843,0.000358848231298,-0.000225331048393,0.000114628208601,-3.27274204462e-05,
-0.0189981535902,0.0200395217899,-0.00528828692878,0.00355141173897,-0.00271822648689,0.00216386043522,-0.00173506996416,0.00137711257618,-0.00106673647746,0.000793568026139,-0.000553593219336,0.00034668128127,-0.000176059960672,5.02217676033e-05,
-0.016855223028,0.0435673907696,0.030379642672,-0.00693923175519,0.0043344047055,-0.00316351532296,0.00242277289054,-0.00187121355052,0.00142453006384,-0.00104760430312,0.000725153252626,-0.000451771845981,0.000228683634142,-6.51217733285e-05,
-0.0179971729466,0.0382681743916,0.0661233345537,0.0393007917895,-0.00823373536491,0.00485948742726,-0.00339128378072,0.00249119959913,-0.00184021037875,0.00132745819948,-0.000907277121182,0.000560545874372,-0.000282277859466,8.01673175676e-05,
-0.0172547617984,0.0412533979918,0.0579204623739,0.0855778714769,0.0463845993695,-0.00912812000307,0.00512982390659,-0.00342399508689,0.0024010077122,-0.00167859385926,0.00112473016941,-0.000686129552117,0.000342844909038,-9.69793854289e-05,
-0.0177874472666,0.0392337598959,0.0626327197422,0.0748787154812,0.101022753501,0.0512996159303,-0.00958636975953,0.00514289425654,-0.00327298200286,0.00217096714652,-0.00140979076807,0.000843606984772,-0.000416706606796,0.000117184468567,
-0.0173819598205,0.040725133888,0.059391606126,0.0810781747136,0.0883477443626,0.11173735847,0.0538159633658,-0.00958944502747,0.00490242083631,-0.00295118084701,0.00181927648653,-0.0010563185247,0.000512797239918,-0.000142965263485,
-0.0177026954294,0.03956624634,0.0618156038686,0.0767823070926,0.095720379586,0.0976968110243,0.117221371759,0.0538159633658,-0.00913812660915,0.00442145437638,-0.00247659113448,0.00136767921796,-0.000646090308141,0.000177770345416,
-0.0174425456973,0.0404957501867,0.0599156783592,0.0800113743472,0.0905982315925,0.105872213864,0.102489032475,0.117218296491,0.0512996159303,-0.00825355476177,0.00372286809792,-0.00187343439821,0.000845283684014,-0.000227717100774,
-0.0176567095513,0.0397361986708,0.0614454148961,0.0774768534097,0.0944477925982,0.100198224148,0.111055921818,0.102502102825,0.111727351864,0.0463845993695,-0.00697628789782,0.0028388229701,-0.00117435441191,0.000304968367469,
-0.0174795628483,0.0403613214393,0.0601987394696,0.0795088607003,0.0914417405395,0.104439442239,0.105140727132,0.111023210512,0.0977397444334,0.101002934104,0.0393007917895,-0.00536404920974,0.00181086918832,-0.000437442780714,
-0.0176248519392,0.0398503599457,0.0612110571899,0.0778764303265,0.0938168030421,0.101174701797,0.109503140282,0.105209153841,0.105762747184,0.0884347940335,0.0855408153343,0.030379642672,-0.00348834718976,0.000704507137926,
-0.0175095083983,0.0402551035406,0.0604126040627,0.0791551767984,0.0919756307128,0.103665968338,0.106254814155,0.109366996696,0.100435371425,0.0954874252259,0.0750501718401,0.0660475722727,0.0200395217899,-0.00143842342432,
-0.0175924575863,0.0399644153713,0.0609846163923,0.0782427353478,0.0932815471518,0.10191453817,0.108508228737,0.106542287847,0.103929753423,0.0911580309805,0.0805596828759,0.058321585572,0.0433621598103,0.00877986508294};
-
-initializer_list<double> lb={0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060882729124,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161732825403,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278127732180,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276041950345,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799226224416,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698742602854,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843661072667,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843659468872,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698741354404,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799221578134,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276015196586,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278148536558,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161726341104,0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060883202379};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<15,double>(double* a,double* b)
-{
-initializer_list<double> la={0.00768831049903,-0.00288207652296,0.00214977135689,-0.0017388496538,0.00144470413916,-0.00120875124594,-0.000829198279957,0.00066882097553,-0.000523450351173,0.000392046730692,-0.000274715621755,0.000172538127707,-8.77790602646e-05,2.50623437545e-05,0.00100730755285,
-0.016636222751,0.017591511872,-0.00466351386567,0.00315354205167,-0.00243709364542,0.00196545995212,0.00130260473646,-0.00104148556214,0.000810228194456,-0.000604288995042,0.000422194068522,-0.000264629686031,0.000134457272942,-3.83635400719e-05,-0.00160354180515,
-0.0147596657936,0.0382453177464,0.0267898051168,-0.0061612578219,0.00388540778486,-0.00287258727159,-0.00176882660434,0.00138957805663,-0.00106833441026,0.000790333943392,-0.000549070190929,0.000342837152367,-0.000173768948419,4.95161011044e-05,0.00223809184709,
-0.0157597621062,0.033593131848,0.0583100851091,0.0348926694815,-0.00737940946174,0.00441096801813,0.00235280924474,-0.00179283158916,0.00135144263633,-0.00098660966734,0.000679266000451,-0.000421563716076,0.000212853647458,-6.05313101683e-05,-0.00313090802751,
-0.0151094077412,0.0362144152536,0.0510754948902,0.0759798064004,0.0415673014542,-0.00828277336541,-0.00323039674395,0.00233558196615,-0.00170522856069,0.00121948195415,-0.000828185709088,0.000509364129494,-0.000255738444847,7.25131747848e-05,0.00473286955543,
-0.0155763030989,0.0344401095552,0.0552331478313,0.0664782993761,0.0905323400785,0.0465402500039,0.00484679298141,-0.00317822423571,0.00219973318685,-0.00152302038826,0.0010132184771,-0.000614961686883,0.000306254025293,-8.64724368757e-05,-0.0088394434056,
-0.0155025009303,0.0347305608049,0.0545152787351,0.0681643199524,0.0857860006893,0.0886264983356,0.0506445604814,-0.00884395744971,0.0044540016722,-0.00265139778085,0.00162101901072,-0.00093566850152,0.000452462939123,-0.000125879932237,0.108059700113,
-0.0152729660096,0.0355523462959,0.0528291945368,0.0710463622321,0.0811775780039,0.0960621911493,0.110317896557,0.0496078713318,-0.00829283528899,0.003965754028,-0.00220218558161,0.00120863973412,-0.000568634048294,0.000156114201768,0.0944637878374,
-0.0154630934349,0.0348767697188,0.0541945719205,0.068772120486,0.0846576232968,0.0908807668209,0.0964423279814,0.108055186069,0.0465402500039,-0.00739773717005,0.00330703958696,-0.00165353759768,0.000742914188875,-0.00019968210085,0.102393966899,
-0.0153041078233,0.0354387621889,0.0530702461041,0.0706135246722,0.0819151209543,0.0947857285685,0.104519517707,0.0944828731081,0.101363273373,0.0415673014542,-0.00619446743736,0.00250411534341,-0.00103139150959,0.000267213256875,0.0968801606974,
-0.0154371523082,0.0349701700966,0.0540011739497,0.0691060729626,0.0841212125758,0.0917290573714,0.098936311718,0.102346650691,0.0886695319897,0.0905140123702,0.0348926694815,-0.00473047487554,0.00158989189607,-0.000383141108096,0.101008574253,
-0.015327104897,0.0353567926925,0.0532367730812,0.070334409154,0.0823442689651,0.094148834418,0.103057947567,0.0969776508165,0.0959530872794,0.0792491951236,0.075946596785,0.0267898051168,-0.00306229400235,0.000616955204475,0.0978261646069,
-0.0154149845381,0.0350485664711,0.0538442399196,0.0693631448946,0.0837388919035,0.0922702718133,0.0999865162263,0.100819284469,0.0911150400557,0.0855716965539,0.0666317969114,0.0582431240993,0.017591511872,-0.00125960175292,0.100257228226,
-0.0153515586543,0.0352708028043,0.0534070721059,0.0700600545848,0.0827425561778,0.093603950359,0.102118319243,0.0982084351107,0.0942892512537,0.0816898987693,0.0715241886169,0.0514298388767,0.038065100267,0.00768831049903,0.098546921688,
-0.0152205067963,0.0357516577923,0.0523709704995,0.0719875245447,0.0791688488805,0.101373335297,-0.00902877559412,0.00475195482617,-0.0029816911415,0.00195702490455,-0.00126102326903,0.00075041569679,-0.000369322551827,0.000103654988414,0.0496078713318};
-
-initializer_list<double> lb={0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682830460390,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588209219898,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708189811013,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498954293869,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029809258764,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924637160946,0.1012891209627806364403100999837596574193310790047386783983520580257176993773730370466967203563940160676757413354149950886547623144359741096337832934569531306128042724779321515918252514989111725708462305198901935498672095408692145288881885618482355079091675828272564869301466038062774659511256247852975994681,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302649829266,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924593310703,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029790738017,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498847014021,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708140197696,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588143487435,0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682840107698,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302625108573};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<16,double>(double* a,double* b)
-{
-initializer_list<double> la={0.00678811485294,-0.00254981560167,0.00190909917814,0.00130038636167,-0.0010994139781,0.000928810382461,-0.000778400292638,0.000642913073058,-0.000519591764617,0.00040712132102,-0.000305112838734,0.000213868739423,6.83510931381e-05,-0.00155293958635,-0.000134342751559,-1.95156840006e-05,
-0.0146883557391,0.0155633809847,-0.00414132717597,-0.00219345482568,0.00178743918154,-0.00147829989567,0.00122248349189,-0.00100078933566,0.00080388482228,-0.000627151628945,0.000468554602992,-0.000327706017463,-0.000104467756263,0.00281624066329,0.000205533641771,2.9811971512e-05,
-0.013031488757,0.033836054138,0.0237896279206,0.00349652217282,-0.00261183969113,0.00206262230134,-0.0016592708238,0.00133445175088,-0.00105910023568,0.000819360728619,-0.000608529289731,0.000423816016176,0.000134461891658,-0.005501892634,-0.000265040935249,-3.83332614651e-05,
-0.0133402027363,0.0320395557787,0.0453551063259,0.0373989972041,-0.00752716211389,0.00435798231924,-0.00302623842372,0.00223860976756,-0.0016860315402,0.0012598276945,-0.000913650835738,0.00062593432646,0.000194986345721,0.0678462253282,-0.000387087528109,-5.53795862795e-05,
-0.0137527040949,0.030468942878,0.0490485387199,0.081454747949,0.0422891298488,-0.00813602844568,0.00453707368666,-0.0030426448597,0.00217120095071,-0.00156962068732,0.0011141466517,-0.000752443887086,-0.000230806350741,0.0593603918071,0.000460929012641,6.53498025627e-05,
-0.0134381190018,0.0316307469464,0.0465043796221,0.0712277617589,0.0921151518922,0.0456508537612,-0.00844642793523,0.00454380119921,-0.00293743652118,0.00201131394853,-0.00138126417499,0.000913338905275,0.000274062032276,0.0642830051583,-0.000551919591018,-7.72613934738e-05,
-0.0136877916708,0.0307250535497,0.0484126854179,0.0771876047046,0.0805272007369,0.0994428614739,0.0473626526138,-0.00844803342104,0.00437957742267,-0.00271671446709,0.00176767465118,-0.00113163758565,-0.000328859657487,0.060863467025,0.000670277294016,9.21436520028e-05,
-0.0134840860539,0.0314556216268,0.0469089785472,0.0730303197571,0.0872949741646,0.0869221300998,0.103173338649,0.0473626526138,-0.00814115395141,0.00405105896059,-0.00238961029634,0.00145101860274,0.000401708419647,0.0634461232134,-0.000833429576667,-0.00011156196489,
-0.0136534910994,0.030852699937,0.0481311754323,0.0761792585833,0.082566945749,0.0942391440436,0.0901815040283,0.103171733163,0.0456508537612,-0.00753689219466,0.00357023264943,-0.00196851953058,-0.000503984977066,0.0614011467225,0.0010748762191,0.000138110704035,
-0.0135108799033,0.0313575683201,0.0471183268286,0.0736838477566,0.0861478803848,0.0891305065718,0.0977679500872,0.0901882315409,0.0994377359681,0.0422891298488,-0.00665675354067,0.00295409382069,0.000657819091304,0.0630669295149,-0.00146928287866,-0.000176474389069,
-0.0136316092922,0.0309317756236,0.0479663433694,0.075711645244,0.083318432003,0.0929877390627,0.09248669546,0.0977515436513,0.0869437252032,0.0921054218114,0.0373989972041,-0.00553173970039,-0.000912793809372,0.0616885513013,0.00222414951539,0.000236026969602,
-0.0135296349037,0.0312904546822,0.047255657717,0.0740466661773,0.0855995373964,0.0899635050041,0.0964455266917,0.0925195872689,0.0941859356858,0.0805687246461,0.0814379117728,0.0311572428139,0.00140674278045,0.0628342944282,-0.00420088450714,-0.000338333283687,
-0.0135464177344,0.0312312297256,0.0473737221995,0.0743294398053,0.0852054113264,0.0904978227002,0.0957260945632,0.0935028217356,0.0927800074181,0.082790820516,0.076991449234,0.0594982449645,0.0155633809847,0.0626421916452,0.0517205830172,-0.00111212603322,
-0.0139145629896,0.0297200191889,0.0517801403484,-0.00663991736447,0.00400953505145,-0.00288422816336,0.00220571795868,-0.0017202214642,0.00133820251837,-0.00102127769889,0.00075132823097,-0.000519808800401,-0.000163692712838,0.0311572428139,0.000323598124258,4.65948022208e-05,
-0.0136145629673,0.0309923000777,0.0478442967765,0.075406523698,0.0837588989689,0.0923608077581,0.0933908534767,0.0963845760513,0.0892390852211,0.0871900993886,0.0713014722355,0.0678163782618,-0.0027092921687,0.0618906696116,0.0237896279206,0.000544740948874,
-0.0135957453899,0.0310584108762,0.0477135985928,0.075103107247,0.0841711383765,0.0918212992871,0.0940823921545,0.0955037055202,0.09037289714,0.0856776736756,0.0734976080466,0.0638674252141,0.033676577571,0.0621006168883,0.0456701566631,0.00678811485294};
-
-initializer_list<double> lb={0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003877547703,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461123720529,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935585656443,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692531883301132,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122526857723,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938028225420036,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403531555198,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403333344607,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938027679422200,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122127735933,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692532133026079,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513866744923,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461219664102,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513836001130,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935552934972,0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003895390404};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<2,long double>(long double* a,long double* b)
-{
 initializer_list<double> la={0.250000000000000000000000000000000,-0.0386751345948128822545743902509787,
 0.538675134594812882254574390250979,0.250000000000000000000000000000000};
 
@@ -279,7 +9,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<3,long double>(long double* a,long double* b)
+template<> void icoeffs<3,double>(double* a,double* b)
 {
 initializer_list<double> la={0.138888888888888888888888888888889,-0.0359766675249389034563954710966044,0.00978944401530832604958004222947557,
 0.300263194980864592438024947213156,0.222222222222222222222222222222222,-0.0224854172030868146602471694353778,
@@ -291,7 +21,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<4,long double>(long double* a,long double* b)
+template<> void icoeffs<4,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0869637112843634643432659873054999,-0.0266041800849987933133851304769531,0.0126274626894047245150568805746181,-0.00355514968579568315691098184956959,
 0.188118117499868071650685545087171,0.163036288715636535656734012694500,-0.0278804286024708952241511064189974,0.00673550059453815551539866908570376,
@@ -304,7 +34,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<5,long double>(long double* a,long double* b)
+template<> void icoeffs<5,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0592317212640472718785660101799793,-0.0195703643590760374926432140508841,0.0112544008186429555527162442150907,0.00158811296786599853936524247059342,-0.00559379366081218487681772196447593,
 0.128151005670045283496166848329514,0.119657167624841617010322878708910,-0.0245921146196422003893182516860040,-0.00276899439876960304428263075887960,0.0103182806706833574089539450563558,
@@ -318,7 +48,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<6,long double>(long double* a,long double* b)
+template<> void icoeffs<6,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0428311230947925862600740355431832,-0.0147637259971974124753725910605207,0.00932505070647775119143888450800315,-0.00566885804948351190092125641621651,0.00285443331509933513092928583011602,-0.000812780171264762112299135651562540,
 0.0926734914303788631865122917633203,0.0901903932620346518924583784594290,-0.0203001022932395859524940805242725,0.0103631562402464237307199458065600,-0.00488719292803767146341420376578964,0.00135556105548506177551787075080011,
@@ -333,7 +63,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<7,long double>(long double* a,long double* b)
+template<> void icoeffs<7,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0323712415422174233176528581697705,-0.0114510172831838702881645824731459,0.00763320387242354492584664422163565,-0.00513373356322534498195629758233913,0.00317505877368563763683431730199470,-0.00160681903704610585560610128347643,0.000458109523749452982298319621634935,
 0.0700435413787260762729814536065897,0.0699263478723191669753669428559449,-0.0165900065788477711644699061373328,0.00934962278344333207631107766792938,-0.00539709193189613785462120177242070,0.00264584386673003737983031295579446,-0.000743850190171923617331065816899149,
@@ -349,7 +79,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<8,long double>(long double* a,long double* b)
+template<> void icoeffs<8,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0253071340725940647881328385774905,-0.00910594330597007502136365210466435,0.00628083114703047398060942073780760,-0.00448301561305475144191331423530155,0.00307849136832677988985383064911711,-0.00191767525463695234092563511949444,0.000972757664059263526724523824088790,-0.000277508327116919222898446613780209,
 0.0547593217675543202831907973850023,0.0555952586133436176360889986065602,-0.0136397962357816692530306620699761,0.00814970885836055053604042748372916,-0.00521535208914715338024336977463765,0.00313975298546366894234500690115627,-0.00156493491094894237579511140443043,0.000442802304342237815626944634681052,
@@ -366,7 +96,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<9,long double>(long double* a,long double* b)
+template<> void icoeffs<9,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0203185970903936029929730395276309,-0.00739786856614878686542489503086324,0.00522200359210005389185584360564744,-0.00387345129174498055049537887338993,0.00283136945006983986354937012363709,0.00122660978881256074839466284462653,-0.000622964091648914481159571486571450,0.000177778462744798652780015293222430,-0.00196219418839121917026118745577622,
 0.0439655272265284041585412645645087,0.0451620401737143510146180078107282,-0.0113354640123350470465925464814319,0.00703476680173468143903695814226945,-0.00478827613101664029445945068615472,-0.00196440573995350861710011819853350,0.000987172103665947150853208009195396,-0.000280274237640940717284308546381075,0.00320336015198485576267209135093205,
@@ -384,7 +114,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<10,long double>(long double* a,long double* b)
+template<> void icoeffs<10,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0166678360771720343983922024733329,-0.00612068029233502987025308987906619,0.00439200373028852221698614553887794,-0.00334535050882549470870888176133072,0.00254756897027876354904962225738170,-0.00188262038693525661085207791056827,0.00131081462770308391842832788419797,-0.000820986353138291127367521983463229,0.000417243835667835720457601113273652,-0.000119093958462027525114333774861831,
 0.0360661525781943304506967868615967,0.0373628372876451482864440849144243,-0.00953137359188965945260757183913681,0.00607228446174392218489428998019616,-0.00430404581295939200907563270911149,0.00306851861086753558695384716440183,-0.00209411395745032284831574789258204,0.00129624965549819963331444499418201,-0.000654328115142468560893715735581344,0.000186135539000451362540870049864093,
@@ -403,7 +133,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<11,long double>(long double* a,long double* b)
+template<> void icoeffs<11,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0139171417790434166206884301106371,-0.00514325562983490553945482672729184,0.00373560374914085018725131470439065,-0.00290037905138315003781828070850379,0.00227274215264998537669600797675868,-0.00175240116264082742702346957094253,0.00130248911731822927183376576527350,-0.000909279657711640651057229985874300,0.000570136062283444316355989598062838,-0.000289875324978482038437992853765253,0.0000827488930845835189972911298261979,
 0.0301142391948244556850291647703452,0.0313950923662261561586735748059850,-0.00810562697907984411509038761874716,0.00526282127353501507194118571645874,-0.00383743668169242759363413819373032,0.00285354676447749860209788071218239,-0.00207783291714634649529155042045045,0.00143267781287657313277759445234306,-0.000891466711988145401994499020386626,0.000451184930916069171735273863699948,-0.000128498936996653753822983719663434,
@@ -423,7 +153,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<12,long double>(long double* a,long double* b)
+template<> void icoeffs<12,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0117938340966279567986539903712543,-0.00437990215767931650940188692918276,0.00321056964125654262004469232623711,-0.00252868076291527559325483047108311,0.00202324519894856845571760672436639,0.00124774475192659582311909076184889,-0.000930499836629974148333740147760258,0.000650624788775465133900270947845369,-0.000408237882558168112866492596697974,0.000207615108480287514624040502392411,-0.0000592710487056506905538129963004732,-0.00160735902088665663692347356756028,
 0.0255198232326244639441836509717834,0.0267348314988296077400636795484991,-0.00696570366255593528084233870896311,0.00458737722346434400703031480933751,-0.00341487831325726315216580833366991,-0.00198873604147400184383034336299982,0.00146425936525797332056119445694672,-0.00101552961889071285353932174117125,0.000633880729666708085426064346671315,-0.000321341337251878490974152992793925,0.0000915875660363567404988113849493164,0.00261580117231290944435531656186262,
@@ -444,7 +174,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<13,long double>(long double* a,long double* b)
+template<> void icoeffs<13,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0101210011913289698800053980502465,-0.00377307158532573117639653956478696,0.00278561575606280540506391769715011,-0.00221827038404612727470909369006428,0.00180306469115291924767648064980046,-0.00146428618397597206373219195398718,0.00117219434523376612789533432940761,-0.000913582925476946914279833786076516,0.000682707775014527070994806526617237,-0.000477846825328057044954904151545178,0.000299962625259445461030372797434857,-0.000152576299212045336495614490534017,0.0000435604600183718814871431827825288,
 0.0219001283175295116522258243792181,0.0230303749594321119786054439884493,-0.00604331982544823445948205359739159,0.00402367675567341024867616113409459,-0.00304249472622634548710370846496858,0.00238203498776763745077474812162596,-0.00186724640081131399249109864113950,0.00143647464828385926714290321692637,-0.00106442244601130699290888262870222,0.000740852231417186149520785772376544,-0.000463345539787940887382989363911043,0.000235139088196600369947814289646073,-0.0000670516615041579007988664565837295,
@@ -466,7 +196,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<14,long double>(long double* a,long double* b)
+template<> void icoeffs<14,double>(double* a,double* b)
 {
 initializer_list<double> la={0.00877986508293796575795821903454795,-0.00328311623042934086798688316216252,0.00243769977190523648369753867532496,-0.00195809929677580446849837789111997,0.00161116775847946349648444265711885,-0.00133052156270291506772693351446155,0.00108963888466220974785039375877712,-0.000876302005740451815114376127002123,0.000684693691039925453930883284840597,-0.000512348412842921048968187481164774,0.000358848231298344463716262218571774,-0.000225331048392672084870452601877430,0.000114628208600992289517695941405055,-0.0000327274204462017607888581448243350,
 0.0189981535901935692032565753457345,0.0200395217899400524514083192657136,-0.00528828692877905772827154588731698,0.00355141173896972234311116783155499,-0.00271822648688944300089230331346735,0.00216386043522498030367910884029325,-0.00173506996416364108314035850590390,0.00137711257617749357667294331528682,-0.00106673647746380315042748249637517,0.000793568026138729677545338924362882,-0.000553593219336437327016306954809997,0.000346681281269539277437669257943583,-0.000176059960671760509587943072474205,0.0000502217676032972980292477605208439,
@@ -489,7 +219,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<15,long double>(long double* a,long double* b)
+template<> void icoeffs<15,double>(double* a,double* b)
 {
 initializer_list<double> la={0.00768831049902931708865709839430110,-0.00288207652296439580063546956640496,0.00214977135688850644287947195441230,-0.00173884965380298083558788216578044,0.00144470413915726138708869767716335,-0.00120875124593688546658128485877837,-0.000829198279957270056165475383330968,0.000668820975529917187940369682561850,-0.000523450351172725058136595675165461,0.000392046730691602014114395777496628,-0.000274715621754918118582794977518628,0.000172538127706577039763717164693461,-0.0000877790602645868752966820187805339,0.0000250623437545120994878446872165364,0.00100730755285335470627173001460784,
 0.0166362227509783404984961450415114,0.0175915118720270311773168541126668,-0.00466351386567139920910945192640114,0.00315354205167060177481027904195496,-0.00243709364541861248927066133075671,0.00196545995211755642319833638016242,0.00130260473646139385678049832465133,-0.00104148556214203561932207449711480,0.000810228194455859749132304352513766,-0.000604288995041522705160129596905066,0.000422194068522064401364461722620928,-0.000264629686030523967638173133559916,0.000134457272941865614537600421636876,-0.0000383635400718623012778712595397459,-0.00160354180515170935773759150854591,
@@ -513,7 +243,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<16,long double>(long double* a,long double* b)
+template<> void icoeffs<16,double>(double* a,double* b)
 {
 initializer_list<double> la={0.00678811485293852371294514311400453,-0.00254981560166642060794569067228638,0.00190909917813672352877801175229420,0.00130038636167335289131149058789750,-0.00109941397810467496743881733363378,0.000928810382461165787713007929583067,-0.000778400292638016970213471818843129,0.000642913073058191572480402310603516,-0.000519591764617300727073793902583398,0.000407121321020350344602879245931763,-0.000305112838734354656103913206664628,0.000213868739423092125277034461916634,0.0000683510931380568197932759579296331,-0.00155293958635445852534156874682570,-0.000134342751558613532849595377351067,-0.0000195156840005830940114810271390690,
 0.0146883557390946385758642521469263,0.0155633809846619732157109592485944,-0.00414132717596763996878861232853917,-0.00219345482567798016982323843681041,0.00178743918153624175343071841289058,-0.00147829989566992546596208722498436,0.00122248349189014866625509839220072,-0.00100078933565830982842652679008346,0.000803884822279940961686355000181995,-0.000627151628945023668023605338992174,0.000468554602991504934816921554325165,-0.000327706017463433279300993976240050,-0.000104467756262960729780516285484119,0.00281624066329179723974536344229666,0.000205533641770747263601026242237198,0.0000298119715119924600006781741765009,
@@ -538,3 +268,273 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
+template<> void icoeffs<2,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.250000000000000000000000000000000L,-0.0386751345948128822545743902509787L,
+0.538675134594812882254574390250979L,0.250000000000000000000000000000000L};
+
+initializer_list<long double> lb={0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000L,0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<3,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.138888888888888888888888888888889L,-0.0359766675249389034563954710966044L,0.00978944401530832604958004222947557L,
+0.300263194980864592438024947213156L,0.222222222222222222222222222222222L,-0.0224854172030868146602471694353778L,
+0.267988333762469451728197735548302L,0.480421111969383347900839915541049L,0.138888888888888888888888888888889L};
+
+initializer_list<long double> lb={0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778L,0.4444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444L,0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<4,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0869637112843634643432659873054999L,-0.0266041800849987933133851304769531L,0.0126274626894047245150568805746181L,-0.00355514968579568315691098184956959L,
+0.188118117499868071650685545087171L,0.163036288715636535656734012694500L,-0.0278804286024708952241511064189974L,0.00673550059453815551539866908570376L,
+0.167191921974188773171133305525296L,0.353953006033743966537619131807998L,0.163036288715636535656734012694500L,-0.0141906949311411429641535704761715L,
+0.177482572254522611843442956460569L,0.313445114741868346798411144814382L,0.352676757516271864626853155865953L,0.0869637112843634643432659873054999L};
+
+initializer_list<long double> lb={0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411L,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719588L,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719589L,0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<5,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0592317212640472718785660101799793L,-0.0195703643590760374926432140508841L,0.0112544008186429555527162442150907L,0.00158811296786599853936524247059342L,-0.00559379366081218487681772196447593L,
+0.128151005670045283496166848329514L,0.119657167624841617010322878708910L,-0.0245921146196422003893182516860040L,-0.00276899439876960304428263075887960L,0.0103182806706833574089539450563558L,
+0.113776288004224602528741273815366L,0.260004651680641518592405895187574L,0.142222222222222222222222222222222L,0.00468715452386994122839074654459310L,-0.0206903164309582845717601377697549L,
+0.116875329560228545217766777889365L,0.244908128910495418897463479382295L,0.273190043625801488891728200229354L,0.0592317212640472718785660101799793L,0.258884699608759271513288971468703L,
+0.121232436926864146801414651118838L,0.228996054578999876611691812361463L,0.309036559064086644833762696130448L,-0.00968756314195073973903482796955514L,0.119657167624841617010322878708910L};
+
+initializer_list<long double> lb={0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989L,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290784L,0.2844444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444446L,0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989L,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290788L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<6,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0428311230947925862600740355431832L,-0.0147637259971974124753725910605207L,0.00932505070647775119143888450800315L,-0.00566885804948351190092125641621651L,0.00285443331509933513092928583011602L,-0.000812780171264762112299135651562540L,
+0.0926734914303788631865122917633203L,0.0901903932620346518924583784594290L,-0.0203001022932395859524940805242725L,0.0103631562402464237307199458065600L,-0.00488719292803767146341420376578964L,0.00135556105548506177551787075080011L,
+0.0822479226128438738077716511411289L,0.196032162333245006055759781563801L,0.116978483643172761847467585997388L,-0.0204825277456560976298590118654006L,0.00798999189966233579720442148030827L,-0.00207562578486633419359528915758165L,
+0.0877378719744515067137433602439481L,0.172390794624406967987712335438550L,0.254439495032001621324794183860176L,0.116978483643172761847467585997388L,-0.0156513758091757022708430246449433L,0.00341432357674129871237641994523753L,
+0.0843066851341001107446302003355663L,0.185267979452106975248330960684648L,0.223593811046099099964215226188216L,0.254257069579585109647429252519048L,0.0901903932620346518924583784594290L,-0.00701124524079369066636422067695387L,
+0.0864750263608499346324472067379290L,0.177526353208969968653987471088742L,0.239625825335829035595856428410992L,0.224631916579867772503496287486772L,0.195144512521266716260289347979379L,0.0428311230947925862600740355431832L};
+
+initializer_list<long double> lb={0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461046L,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213883L,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939998L,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939993L,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213892L,0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461044L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<7,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0323712415422174233176528581697705L,-0.0114510172831838702881645824731459L,0.00763320387242354492584664422163565L,-0.00513373356322534498195629758233913L,0.00317505877368563763683431730199470L,-0.00160681903704610585560610128347643L,0.000458109523749452982298319621634935L,
+0.0700435413787260762729814536065897L,0.0699263478723191669753669428559449L,-0.0165900065788477711644699061373328L,0.00934962278344333207631107766792938L,-0.00539709193189613785462120177242070L,0.00264584386673003737983031295579446L,-0.000743850190171923617331065816899149L,
+0.0621539357873498645358789291293530L,0.152005522057830992561321708847833L,0.0954575126262797362375924438722438L,-0.0183752442154518373892046007271753L,0.00871256259847518198378369475574952L,-0.00395358015881043812088052856667313L,0.00107671561562791673820514665018881L,
+0.0663329286176847005521322620413143L,0.133595769223882288417924053929659L,0.207701880765970782089300497781520L,0.104489795918367346938775510204082L,-0.0167868555134113096141156100370328L,0.00625692652075604553280983178223092L,-0.00159044553324985391682654570177327L,
+0.0636657674688069298971005696893522L,0.143806275903448772071614414278563L,0.182202462654084290491401192988738L,0.227354836052186531266755621135339L,0.0954575126262797362375924438722438L,-0.0121528263131926586105878231359428L,0.00258854729708498209942678721018804L,
+0.0654863332746067702526367821564402L,0.137206851877908296570903572756095L,0.196312117184455610329806089516908L,0.199629969053291361801239942740234L,0.207505031831407243639654793881820L,0.0699263478723191669753669428559449L,-0.00530105829429122963767573726704867L,
+0.0642843735606853936530073967179061L,0.141459514781684439806339986995366L,0.187739966478873834838350570442493L,0.214113325399960038859507317990502L,0.183281821380135927549338243522852L,0.151303713027822204238898468185036L,0.0323712415422174233176528581697705L};
+
+initializer_list<long double> lb={0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590650L,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132896L,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048930L,0.2089795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918361L,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048914L,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132877L,0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590471L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<8,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0253071340725940647881328385774905L,-0.00910594330597007502136365210466435L,0.00628083114703047398060942073780760L,-0.00448301561305475144191331423530155L,0.00307849136832677988985383064911711L,-0.00191767525463695234092563511949444L,0.000972757664059263526724523824088790L,-0.000277508327116919222898446613780209L,
+0.0547593217675543202831907973850023L,0.0555952586133436176360889986065602L,-0.0136397962357816692530306620699761L,0.00814970885836055053604042748372916L,-0.00521535208914715338024336977463765L,0.00313975298546366894234500690115627L,-0.00156493491094894237579511140443043L,0.000442802304342237815626944634681052L,
+0.0485875359989128809431601473474389L,0.120859524997173167441653743003485L,0.0784266614694718218344905504966503L,-0.0159751033618784314756701138556965L,0.00837173272022616378691032206439061L,-0.00464346586210447979012617007024473L,0.00222571477528489971831530140789318L,-0.000618805695250515367603304988539769L,
+0.0518655209705812345653120779649669L,0.106193490148348406878869450082582L,0.170671134274553621284710784603994L,0.0906709458445904957412876123192989L,-0.0160210413210250131687052177938008L,0.00724120656122226986180306301493881L,-0.00319781431036077032248274309542093L,0.000859236584264852689466901723348634L,
+0.0497550315609232768867987754316325L,0.114388331537048005594660740308541L,0.149612116377721373807178037978362L,0.197362933010206004651280442432399L,0.0906709458445904957412876123192989L,-0.0138178113356099776157296836106934L,0.00499702707833882839330854713053803L,-0.00125125282539310498904640080998583L,
+0.0512330738404386449438689821435209L,0.108964802451402335553862695805227L,0.161496788801048123459107271063545L,0.172970158968954827695664902574207L,0.197316995051059422958245338494294L,0.0784266614694718218344905504966503L,-0.00966900777048593216947574579036441L,0.00202673214627524863310552980754224L,
+0.0501714658408458917606387325203000L,0.112755452137636177647973108617551L,0.153713569953479974726636094092144L,0.186557243778328144862818594413235L,0.173192182830820440946534797154869L,0.170493119174725312922011763063277L,0.0555952586133436176360889986065602L,-0.00414505362236619070692512023002115L,
+0.0508917764723050487991641237687613L,0.110217759562627971745453473389032L,0.158770998193580596009906736112795L,0.178263400320854211592721393989481L,0.185824907302235742924488538873899L,0.150572491791913169688371680255493L,0.120296460532657310293541649317785L,0.0253071340725940647881328385774905L};
+
+initializer_list<long double> lb={0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923686L,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244513L,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271998L,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781091084L,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781090983L,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271946L,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244531L,0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923785L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<9,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0203185970903936029929730395276309L,-0.00739786856614878686542489503086324L,0.00522200359210005389185584360564744L,-0.00387345129174498055049537887338993L,0.00283136945006983986354937012363709L,0.00122660978881256074839466284462653L,-0.000622964091648914481159571486571450L,0.000177778462744798652780015293222430L,-0.00196219418839121917026118745577622L,
+0.0439655272265284041585412645645087L,0.0451620401737143510146180078107282L,-0.0113354640123350470465925464814319L,0.00703476680173468143903695814226945L,-0.00478827613101664029445945068615472L,-0.00196440573995350861710011819853350L,0.000987172103665947150853208009195396L,-0.000280274237640940717284308546381075L,0.00320336015198485576267209135093205L,
+0.0390086533962843337053406260551850L,0.0981815119598481585602972012795661L,0.0651526741007338655796857173546582L,-0.0137708339866085721988706377249966L,0.00766417562464213864225207092504704L,0.00277082889275901981606719881443306L,-0.00136167198307300388077294236226989L,0.000382532112918055676721205511905614L,-0.00471358646779919455507145952426565L,
+0.0416450870273228085684590957995216L,0.0862554727725037766071341170647431L,0.141795216041145464700711349265044L,0.0780867692600007100171576016461109L,-0.0146189578759125574286313738589815L,-0.00393283991503873128187398305621736L,0.00185268620082252394849783525333888L,-0.000510573474928686025187960892672731L,0.00730042826218022637446431145744470L,
+0.0399403728698347433203974299378427L,0.0929433722727170869747695620130788L,0.124257110410775669930284959188188L,0.170000445255253483576298037267459L,0.0825598387503149407911312673217435L,0.00604823779069206122908647552112829L,-0.00261929192528838494553354639162238L,0.000696821310952462665548649117419158L,-0.0138269067352520635419828339752373L,
+0.0402546620678691503092248735433562L,0.0916857523305017059100089579837263L,0.127534519308708711343304235894883L,0.160887124987800614589386662816487L,0.157455501875987742940010463718440L,0.0651526741007338655796857173546582L,-0.00785743161241945653106118565810966L,0.00162854078450287228060545300007680L,0.169944372506609992233185841017218L,
+0.0409174684184281467032303876016429L,0.0893369082437627548783828076122610L,0.132269753941421239776471552907850L,0.152970178368016564271643111941290L,0.169907953631646521876721985329642L,0.141640812213802778205963981190748L,0.0451620401737143510146180078107282L,-0.00332833304574119817259518550924687L,0.149138771718266738595278245149952L,
+0.0404594157180424073331660637620394L,0.0909470444390776165103955871080279L,0.129078738412655170410976771864690L,0.158135732708392639204576390747998L,0.162288308050560041718713164519850L,0.125083344609367677267515591103669L,0.0977219489135774888946609106523197L,0.0203185970903936029929730395276309L,0.160046989811746400584810582165612L,
+0.0411477676557158920111340399479346L,0.0884713941466061780807381803681175L,0.134238188116506462441245417765534L,0.148873110257821193659850891834777L,0.179738635376542439010893908502469L,-0.0114898678396777335413399145557277L,0.00406860757492492542210189855671329L,-0.00100789284653560258251301674425978L,0.0780867692600007100171576016461109L};
+
+initializer_list<long double> lb={0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958263L,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353767L,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188599L,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754460237L,0.1651196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441912L,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188832L,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353150L,0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958472L,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754459123L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<10,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0166678360771720343983922024733329L,-0.00612068029233502987025308987906619L,0.00439200373028852221698614553887794L,-0.00334535050882549470870888176133072L,0.00254756897027876354904962225738170L,-0.00188262038693525661085207791056827L,0.00131081462770308391842832788419797L,-0.000820986353138291127367521983463229L,0.000417243835667835720457601113273652L,-0.000119093958462027525114333774861831L,
+0.0360661525781943304506967868615967L,0.0373628372876451482864440849144243L,-0.00953137359188965945260757183913681L,0.00607228446174392218489428998019616L,-0.00430404581295939200907563270911149L,0.00306851861086753558695384716440183L,-0.00209411395745032284831574789258204L,0.00129624965549819963331444499418201L,-0.000654328115142468560893715735581344L,0.000186135539000451362540870049864093L,
+0.0319991179775146101939898453822534L,0.0812275701118607728515460679181319L,0.0547715906289955109988837335570408L,-0.0118776128915294264824282010922476L,0.00687814639770714478385800606631069L,-0.00450274329686185241607146970564758L,0.00294087333141394952634963014459878L,-0.00177613374657410074450312651393922L,0.000884246091931209019529692891224078L,-0.000249838753970020848317861205161996L,
+0.0341639921791087090319388879631186L,0.0713553690746355578848296638813347L,0.119207290548758140477788951389364L,0.0673166798274990887728067303923673L,-0.0130965195471968997587876242976924L,0.00694886598383539031062731500230080L,-0.00414845352723169508779133417255612L,0.00239281424177035654040595767259466L,-0.00116229795133242643161918981684538L,0.000324562105530182860167670403121262L,
+0.0327609312912844373135061555894162L,0.0769022997036484359436613608768349L,0.104444079563094207185198585546974L,0.146566245550415954620379616976850L,0.0738810561786882175434732486628346L,-0.0131122091695853752390419769315554L,0.00633145505482068380026709671442490L,-0.00333810079767527560194800163458398L,0.00155179916885143634252135178552101L,-0.000424726034358327350430438151576489L,
+0.0337603981887023961472148430982424L,0.0731738754064388602303668180433277L,0.112881282055666297599715468748666L,0.128301904600177493745346364070310L,0.160874321526961810325988474257225L,0.0738810561786882175434732486628346L,-0.0119328858954177770747661561921157L,0.00509910169489681481256888156710769L,-0.00217662512835813937077319104798624L,0.000574740863059631483278249357249694L,
+0.0330111100488138859366167345435446L,0.0758879725266227230045073596456940L,0.107150367016220665457361509441487L,0.138781813182229872633404794957291L,0.140813246373541044776319182323368L,0.160858631904573334845734121623362L,0.0673166798274990887728067303923673L,-0.00966410929076711848002148427528283L,0.00337030550065473868805850594751399L,-0.000828320024764640235154483016452740L,
+0.0335855109083140896451022661518279L,0.0738414284833590875533584769376246L,0.111319315004565122742270593628021L,0.131692486323584228019263830640136L,0.152264855654238287503017967031317L,0.140883965959669290303088491259358L,0.146510972546527604028041661876982L,0.0547715906289955109988837335570408L,-0.00650189553657047627865789808928320L,0.00133655417682945860279455956441249L,
+0.0331495366153436174342435348968018L,0.0753800026904327651337818855644300L,0.108246931602492822364453022119900L,0.136727473612448500393929208677317L,0.144693593746508899499992650161267L,0.152066158170335827096022130034781L,0.128561075193254255360719170804539L,0.119074554849880681450375038953218L,0.0373628372876451482864440849144243L,-0.00273048042385026165391238191493083L,
+0.0334547661128060963218987387215277L,0.0743084307396224608524305687155750L,0.110364167611129313125134989097545L,0.133322545027295093627185132900537L,0.149644732744311691697798575236237L,0.145214543387097671537896875068287L,0.137978710163823672254322342546065L,0.105151177527702499780781321575204L,0.0808463548676253264431412597079149L,0.0166678360771720343983922024733329L};
+
+initializer_list<long double> lb={0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689192214L,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213795469L,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104743126L,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104384169L,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500566581L,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500571159L,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104387458L,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104745261L,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213757273L,0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689198219L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<11,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0139171417790434166206884301106371L,-0.00514325562983490553945482672729184L,0.00373560374914085018725131470439065L,-0.00290037905138315003781828070850379L,0.00227274215264998537669600797675868L,-0.00175240116264082742702346957094253L,0.00130248911731822927183376576527350L,-0.000909279657711640651057229985874300L,0.000570136062283444316355989598062838L,-0.000289875324978482038437992853765253L,0.0000827488930845835189972911298261979L,
+0.0301142391948244556850291647703452L,0.0313950923662261561586735748059850L,-0.00810562697907984411509038761874716L,0.00526282127353501507194118571645874L,-0.00383743668169242759363413819373032L,0.00285354676447749860209788071218239L,-0.00207783291714634649529155042045045L,0.00143267781287657313277759445234306L,-0.000891466711988145401994499020386626L,0.000451184930916069171735273863699948L,-0.000128498936996653753822983719663434L,
+0.0267179838502661811451222492270490L,0.0682542809171542158094247997671962L,0.0465725527319335628565244103579140L,-0.0102895248152872145428450144855953L,0.00612667324766953732872518254748621L,-0.00418053753704864073577283170383163L,0.00291066795410457775012630543616084L,-0.00195573987509097941918238015793114L,0.00119821656507352216046396088240308L,-0.000600947942995045366467377875974433L,0.000170372117195620967172569989546359L,
+0.0285266689062404033539906138636098L,0.0599560307356048885110634313934399L,0.101365041153570591950231026008482L,0.0582984411479976199796309262107938L,-0.0116536925866713892045122531529432L,0.00643838129780483330857548404618236L,-0.00409164865278154504328097688232838L,0.00262061890572086323919627935494752L,-0.00156237108006700551652476566069921L,0.000771530960015176748020373869400951L,-0.000217065390840345289252973780190160L,
+0.0273528599993796140716452683309802L,0.0646238924302517439343240111126972L,0.0888021849343891269062705363844844L,0.126937527092484729329395593358849L,0.0657011361275616655451722174726273L,-0.0121240615804220011533673101424194L,0.00621926257425001908979939369156868L,-0.00363063338386324112523093675663918L,0.00206324037554684363328318467300617L,-0.000992886275645834511167361281996532L,0.000275899729894848114109410456411519L,
+0.0281917210618671959125369757792893L,0.0614771890632044979378652513022305L,0.0959986109028957617417890032486379L,0.111095774316370167736965659831943L,0.143076752307042779412913905065101L,0.0682312716944751576786208820840855L,-0.0116744800519194483225694701198462L,0.00550110797962507222229619258964432L,-0.00285350543902863602874018253281001L,0.00131299566924781437948189830973959L,-0.000357437503780362671160115558014999L,
+0.0275583838281919851272674497648628L,0.0637830710080981468285145108939666L,0.0910818650883202820797656360428218L,0.120227515679858481084492789178227L,0.125183009680873312000545041253686L,0.148586604969372316510609074310591L,0.0657011361275616655451722174726273L,-0.0103406447964894893701337409372614L,0.00434292052947799880677828433134351L,-0.00183370769779943161697686150072715L,0.000481423558707219169731591890294133L,
+0.0280513489489271785306298340014644L,0.0620186537724371355693267757425691L,0.0947074765439341312295735863765272L,0.113976263390274376720065573066640L,0.135493920907904876133625411827583L,0.130024162091145482048666280121989L,0.143055964841794720294856688098198L,0.0582984411479976199796309262107938L,-0.00821993568970346623718220529265396L,0.00283415399684742380628371821853018L,-0.000692385348153570112613753642335545L,
+0.0276639114408912122742042902317279L,0.0633911326754473576838145274879445L,0.0919468888987936035525848598334249L,0.118552622171086219378444232579519L,0.128491604301018753340218129509094L,0.140643080925998956093014595872003L,0.125275599007453793761619252397768L,0.126886407111282454502106866907183L,0.0465725527319335628565244103579140L,-0.00546409618470190349207765015522619L,0.00111629970782065209625461099422524L,
+0.0279627824950834869951998439409377L,0.0623389998015362431456118757482701L,0.0940365721758552711150433197362146L,0.115164204483118666826484257969245L,0.133480105172269677585635985365705L,0.133608996624472816755143883455989L,0.135239708936815758683978573138985L,0.111334061022460224887320666705129L,0.101250732442946969828139208334575L,0.0313950923662261561586735748059850L,-0.00227995563673762244365230454907090L,
+0.0277515346650022497223795690914481L,0.0630800600574307943557851424657353L,0.0925749694015836813966928311177651L,0.117506161953706880610319082407462L,0.130099783137805101818510669179981L,0.138214944551591142784265233739114L,0.129129530102473345713648426968496L,0.119497261347378389997080133130091L,0.0894095017147262755257975060114373L,0.0679334403622872178568019763392619L,0.0139171417790434166206884301106371L};
+
+initializer_list<long double> lb={0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838649929L,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402346001L,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914408754L,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325724799L,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276299487L,0.1364625433889503153572417641681710945780209849473918737988002057266126530195794265058334322403586472850542114611378680642749906819170888434957699026963096227165491234755304019373283442547511811581075650339719603788867858131927395996660065924135188204452273716342980412244481508550772620036689300758564834854L,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276297309L,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325736902L,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914500390L,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402413194L,0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838632041L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<12,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0117938340966279567986539903712543L,-0.00437990215767931650940188692918276L,0.00321056964125654262004469232623711L,-0.00252868076291527559325483047108311L,0.00202324519894856845571760672436639L,0.00124774475192659582311909076184889L,-0.000930499836629974148333740147760258L,0.000650624788775465133900270947845369L,-0.000408237882558168112866492596697974L,0.000207615108480287514624040502392411L,-0.0000592710487056506905538129963004732L,-0.00160735902088665663692347356756028L,
+0.0255198232326244639441836509717834L,0.0267348314988296077400636795484991L,-0.00696570366255593528084233870896311L,0.00458737722346434400703031480933751L,-0.00341487831325726315216580833366991L,-0.00198873604147400184383034336299982L,0.00146425936525797332056119445694672L,-0.00101552961889071285353932174117125L,0.000633880729666708085426064346671315L,-0.000321341337251878490974152992793925L,0.0000915875660363567404988113849493164L,0.00261580117231290944435531656186262L,
+0.0226415082464546978695105146203535L,0.0581230577546837157157340098137834L,0.0400195821358365565836631323858398L,-0.00896632804601375189900412174147714L,0.00544880489816575571543655014114527L,0.00278156916561874812407426225463822L,-0.00199435710192794323160270551931218L,0.00136062625076553272030386945228062L,-0.000840553839984532063258567090571879L,0.000423460056141347174662230642939509L,-0.000120308349110379280703786321047807L,-0.00382839826778209094726230524498038L,
+0.0241748261226971991223159086687208L,0.0510550484293886763756662871780821L,0.0871038538724015915546922006176071L,0.0507918566807664804372661139524496L,-0.0103577470216968143616942058302073L,-0.00390204370620793343508578200225354L,0.00266388699069817929130618710749775L,-0.00176593366081374114507112195757116L,0.00107205559231517493201514834145065L,-0.000534534766345622524447744620771830L,0.000151074627300977163206610358729114L,0.00588867969618710894147918871599956L,
+0.0231788873633936492342183449770824L,0.0550336735248898118758263652719249L,0.0763035605834845887509628990891626L,0.110596236160954295848669502387033L,0.0583731341345887021902124747312195L,0.00591690882965931097780777409955512L,-0.00367597498519267301626859146921164L,0.00231791162580606885793696566969272L,-0.00136729574370243207975475896064002L,0.000670629185517022286304630351349835L,-0.000188000196714650100120473944846696L,-0.0110754199817737917021409005241805L,
+0.0233514110134668871562570409586137L,0.0543232717216298316487578493835701L,0.0782519909929121000782088530511676L,0.104765642234753235587278744603025L,0.111201133079663467133798800192759L,0.0622867614533506962501406090107378L,-0.0103795246551256818945668362263593L,0.00480193492467387405421263983863473L,-0.00245976665588796403560160874505178L,0.00112275870416866186970650353585504L,-0.000304349193692679899622505931686133L,0.135655440635822029787650595060661L,
+0.0237756683899705636974284546873552L,0.0527990338121421931938227287456483L,0.0814064600153755452470810237323196L,0.0992658017357268920165952622352065L,0.120422243254370077396693540931651L,0.135648942888475184202422118545656L,0.0583731341345887021902124747312195L,-0.00901252279942133497413727448213377L,0.00373560368818852441636336568251690L,-0.00156401052723059639569900617492683L,0.000408780829862264363089635765426139L,0.118656614077042081522473443921920L,
+0.0234365935659549364341013703837794L,0.0540041977640048380045751037177699L,0.0789671086793579382353111164302289L,0.103349647022346702019603349862470L,0.114082381278479225089118762354941L,0.118684843210514283558802029305476L,0.127104015290874218742119155292646L,0.0507918566807664804372661139524496L,-0.00706468960072847838736593584592755L,0.00241461456827053910446107191891601L,-0.000587157929441285525007927926212295L,0.128475566612909325935367000023729L,
+0.0237079765423662928780117670635563L,0.0530462029415178683054651284540586L,0.0808797181116576452305848318622514L,0.100223087110767428154228358452619L,0.118740625371105347612027654981751L,0.128401921174483483447543523266456L,0.111297463371011648664988399321294L,0.110550041407546712773536349646376L,0.0400195821358365565836631323858398L,-0.00465339475702450023560665071678529L,0.000946159946801215727797466122154982L,0.121791953741082644376206955766837L,
+0.0234960806272195568568091693575592L,0.0537910043349110939711015120897920L,0.0794052835420064050819002004250082L,0.102599242980423673728071549646070L,0.115282008903919431059863755005492L,0.121957721734388483055925901459613L,0.120161146582434667532590757796109L,0.0969963361380686168675019130955617L,0.0870048679342290484481686034806426L,0.0267348314988296077400636795484991L,-0.00193215503936855034687567022927485L,0.126562258948175394344111561384475L,
+0.0236469392419615642878617937388090L,0.0532620478891789279655033185946057L,0.0804474021542312812801927573683775L,0.100933088572757495740631956957054L,0.117676768105807378528758689610199L,0.126180881927588049137204691589036L,0.114723023070228835924707342738073L,0.104112394124448236467787058375982L,0.0768285946304165705472815724454424L,0.0578495651553385319895292460261809L,0.0117938340966279567986539903712543L,0.123325778154774796677162127259627L,
+0.0238920173869485934969304866741947L,0.0523469042934905536104208555611431L,0.0824989309275610772029278735167313L,0.0967817784368590868203195880662645L,0.127125792924303086274991785688798L,-0.0110819177291206372873693770391854L,0.00554513518951393724662614926968001L,-0.00318192887322027471274651669812568L,0.00178717327876101308911741172051196L,-0.000853608723970616168630490286571955L,0.000236257179789026441050939783894818L,0.0622867614533506962501406090107378L};
+
+initializer_list<long double> lb={0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952049363L,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933437884L,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485193300L,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511860996273L,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579509954L,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622278147L,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579580542L,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511861010094L,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485555961L,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933242592L,0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952155014L,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622334800L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<13,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0101210011913289698800053980502465L,-0.00377307158532573117639653956478696L,0.00278561575606280540506391769715011L,-0.00221827038404612727470909369006428L,0.00180306469115291924767648064980046L,-0.00146428618397597206373219195398718L,0.00117219434523376612789533432940761L,-0.000913582925476946914279833786076516L,0.000682707775014527070994806526617237L,-0.000477846825328057044954904151545178L,0.000299962625259445461030372797434857L,-0.000152576299212045336495614490534017L,0.0000435604600183718814871431827825288L,
+0.0219001283175295116522258243792181L,0.0230303749594321119786054439884493L,-0.00604331982544823445948205359739159L,0.00402367675567341024867616113409459L,-0.00304249472622634548710370846496858L,0.00238203498776763745077474812162596L,-0.00186724640081131399249109864113950L,0.00143647464828385926714290321692637L,-0.00106442244601130699290888262870222L,0.000740852231417186149520785772376544L,-0.000463345539787940887382989363911043L,0.000235139088196600369947814289646073L,-0.0000670516615041579007988664565837295L,
+0.0194299477196462080138986265725847L,0.0500695755432635923426235131209137L,0.0347183775549468096159004442172179L,-0.00786303206730868570634754109820751L,0.00485274615855356234460137723834130L,-0.00348400333660768447587493382716106L,0.00260906242967983428705086502545689L,-0.00195372076841097163727673691924709L,0.00142329508753345627404375086579584L,-0.000979733532987650877168571875648996L,0.000608355059029741647181307412082681L,-0.000307359452503456643979932083820092L,0.0000874442385102884182445865602618302L,
+0.0207461084445201329864662811434272L,0.0439800566806027462386107262155192L,0.0755663734121840834838611362790007L,0.0445364951904864345700116729990245L,-0.00922091684260183471157923038803508L,0.00535465088568774835817836341051524L,-0.00365522679985131663224119457647232L,0.00260442900234894375524301082650519L,-0.00184200989476170492739286362165069L,0.00124460812210767416235581390797846L,-0.000763750235756611259863351602996257L,0.000383103892798337037853784379416009L,-0.000108591577934743383496452469989929L,
+0.0198907528982510605465179672081930L,0.0474094387268283867543203296582884L,0.0661938972977494572894970911918178L,0.0969774293976857866965958632022815L,0.0519540118842221255781308048265132L,-0.0100633070332503760077136218506629L,0.00553442491474951858506263543603369L,-0.00358522008285720277410984531537971L,0.00240894627535956901766224577323685L,-0.00157902463820694369584986417058936L,0.000951119931434866800772660663683767L,-0.000471841291130799781952598265558731L,0.000132996200941124552109905578322486L,
+0.0205039757594727670060681545998433L,0.0450910064519209141654412218524936L,0.0715749421921594625399608006277203L,0.0848574338709379334336662073674475L,0.113150057093106559270427818381431L,0.0565707950657243096030225465099442L,-0.0103514560922495229752504808065757L,0.00539400389969417161174279062738912L,-0.00329262769907881380106091466035036L,0.00205038906740336088057757139497844L,-0.00119902884864579980320098025955255L,0.000584799095209111448818836774843047L,-0.000163447833221850412977632958606346L,
+0.0200379395811026762773049698442838L,0.0468004290851373722985012660116026L,0.0678786934544959035977382705879556L,0.0918730747240793403196288054251039L,0.0989622717612276794983509717814398L,0.123214025135056194245784393996810L,0.0581378883077184775486473788172090L,-0.0100724350036075750397393009769219L,0.00494575200721657165791063787158657L,-0.00280008434310647117960545942705492L,0.00155806165539771563406261784648011L,-0.000739679166273148341290378034704055L,0.000204062801555263482705826256209194L,
+0.0204054502158797901729884290590994L,0.0454759508236551125083920512020555L,0.0706357839585394190350018686939883L,0.0870226013135695082594457746030706L,0.107200651467523064957322524313377L,0.107747586231754447594302302392499L,0.126627232707686478072545238440994L,0.0565707950657243096030225465099442L,-0.00924203332466230811416620872840460L,0.00421555651003493570635713863060150L,-0.00213818708226584330815991219328461L,0.000969743466943309791769666124404934L,-0.000261973376814827246057358499350264L,
+0.0201090061817168152079008905221705L,0.0465325912099950237391634862424573L,0.0684856351784587524310282277707520L,0.0906520150191798128358732101686384L,0.101499077493084682138599363879790L,0.116726810214305821980154938335268L,0.110741351700687436512232122198384L,0.123204897164698995213758714870551L,0.0519540118842221255781308048265132L,-0.00790443901671291755657251720423246L,0.00324285781214416194230379724261791L,-0.00134868880796416279710944168138988L,0.000351249484406879213492828892300010L,
+0.0203505939605926831435072485704830L,0.0456776460260658869193571035974826L,0.0702005053456502304916642400374320L,0.0878283822588651949776675320900705L,0.105750033663205956083654473274677L,0.110537161129099675450802082193383L,0.119931003415288271729535952210890L,0.107786939245760870847866729609373L,0.113128940611046085867840840041061L,0.0445364951904864345700116729990245L,-0.00612961830229046425206024784456496L,0.00208069323826147771860016176137939L,-0.000504106061862193226455485042934161L,
+0.0201545581441476513417662095402312L,0.0463681093713676806011908200607187L,0.0688284000508638775846195810223531L,0.0900527239139605200171919178736980L,0.102484728680910794882217858787231L,0.115095310899859590843321829939135L,0.113666714185757120810243892608961L,0.116625593468056303681920026847049L,0.0990552776098906888116602324146851L,0.0969360224482815548463708870962565L,0.0347183775549468096159004442172179L,-0.00400882562439936838541262514401512L,0.000812054663011731746112169527908313L,
+0.0203090540441620976608096625570768L,0.0458256108306676235872630736872525L,0.0699001006496815601191838777983468L,0.0883321381495556829905025602256725L,0.104972446214455558149170492281729L,0.111705115483164759938902189802962L,0.118143023016248269089785856275557L,0.110759555143680981755270344898262L,0.106950518494670596643365318117995L,0.0850493136252994588913471848639544L,0.0754800749353418536912829420318273L,0.0230303749594321119786054439884493L,-0.00165812593487157189221502827872504L,
+0.0201984419226395678785236529177105L,0.0462133262180762692937065024674326L,0.0691367924846341737707705156370009L,0.0895508372063009261849782501495942L,0.103225315993429724085266803126409L,0.114055173056925566120324926805965L,0.115103582270203188969399423305010L,0.114605876315424591269777284973875L,0.102104959077291331908585129003226L,0.0912912607650189964147324396881133L,0.0666511393538308138267369707372856L,0.0498338215041899551336074275416855L,0.0101210011913289698800053980502465L};
+
+initializer_list<long double> lb={0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123803064L,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309061141179L,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547440614369L,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706180743704L,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196847519L,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765327175824L,0.1162757766154369550972947576344179740783137386533989930593327196723800120403517006913610310213706817103420500023896627293230689834086437483040879644276247672851069454466057862661259264655868052471449074845678242281638885035488432091828695225298621902018505415108811712208315604919001522398125794729191249933L,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765326548185L,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196999882L,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706179183318L,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547443278613L,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309060101292L,0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123836934L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<14,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.00877986508293796575795821903454795L,-0.00328311623042934086798688316216252L,0.00243769977190523648369753867532496L,-0.00195809929677580446849837789111997L,0.00161116775847946349648444265711885L,-0.00133052156270291506772693351446155L,0.00108963888466220974785039375877712L,-0.000876302005740451815114376127002123L,0.000684693691039925453930883284840597L,-0.000512348412842921048968187481164774L,0.000358848231298344463716262218571774L,-0.000225331048392672084870452601877430L,0.000114628208600992289517695941405055L,-0.0000327274204462017607888581448243350L,
+0.0189981535901935692032565753457345L,0.0200395217899400524514083192657136L,-0.00528828692877905772827154588731698L,0.00355141173896972234311116783155499L,-0.00271822648688944300089230331346735L,0.00216386043522498030367910884029325L,-0.00173506996416364108314035850590390L,0.00137711257617749357667294331528682L,-0.00106673647746380315042748249637517L,0.000793568026138729677545338924362882L,-0.000553593219336437327016306954809997L,0.000346681281269539277437669257943583L,-0.000176059960671760509587943072474205L,0.0000502217676032972980292477605208439L,
+0.0168552230279503139456460219204252L,0.0435673907696408731646233759168512L,0.0303796426719757961723537022681192L,-0.00693923175519035119345305019603769L,0.00433440470550090540006755914465584L,-0.00316351532295943580063171436089832L,0.00242277289054359102627535965473214L,-0.00187121355051888424772368728276770L,0.00142453006383964222688942439349999L,-0.00104760430312298289632470226583768L,0.000725153252625853259256047396927371L,-0.000451771845981418753779397766857358L,0.000228683634142081114593321789361646L,-0.0000651217733284800126896319373713546L,
+0.0179971729465900660094843746827399L,0.0382681743915636711701172340552138L,0.0661233345536871905749021814089698L,0.0393007917895483836424004846559605L,-0.00823373536491335826742210350287508L,0.00485948742725785845997735856907124L,-0.00339128378072244485517029851665092L,0.00249119959912946624822510381855310L,-0.00184021037875169195812940290871736L,0.00132745819947615736530485315118822L,-0.000907277121182312713726071572431614L,0.000560545874372256964826230090779137L,-0.000282277859465565741926729500486366L,0.0000801673175675880271268840590184610L,
+0.0172547617984066298930832342738616L,0.0412533979917853903899376777087094L,0.0579204623738544047817452791920076L,0.0855778714769197311989090537154116L,0.0463845993694844534354291475312893L,-0.00912812000306882147124445709482786L,0.00512982390658682692428320009930379L,-0.00342399508689323368479917773962021L,0.00240100771220400841219767118394390L,-0.00167859385926087166843659137677713L,0.00112473016941185443769237507083812L,-0.000686129552116775559003003408177509L,0.000342844909038254845086894540875276L,-0.0000969793854288979175266629724320737L,
+0.0177874472666498987219915789897631L,0.0392337598958662474135725228744003L,0.0626327197421615393472331900914912L,0.0748787154811760310330609299933730L,0.101022753500743341641028589080367L,0.0512996159303239009914810164153045L,-0.00958636975953160870951134850919731L,0.00514289425654003773414845707324228L,-0.00327298200285945016047811109921003L,0.00217096714651606515875789781947959L,-0.00140979076807348690067732075971781L,0.000843606984771863475085728612171211L,-0.000416706606795931371592766062971839L,0.000117184468566671408063723397267082L,
+0.0173819598204594481529414082955742L,0.0407251338880214787650397745445252L,0.0593916061259882977498028646063490L,0.0810781747135810532747494681898616L,0.0883477443625841108910902653689403L,0.111737358469799304747462009589509L,0.0538159633657894475489691108290650L,-0.00958944502746706154293216025288384L,0.00490242083631428848742035750691602L,-0.00295118084701215774738375533809831L,0.00181927648653469995209335198496095L,-0.00105631852469745200915360223396650L,0.000512797239918080511166826616528849L,-0.000142965263485369814388244817198644L,
+0.0177026954293613013303046828862945L,0.0395662463399620243916498119148983L,0.0618156038686490443538610067702048L,0.0767823070925620673327076173269601L,0.0957203795859810646182420504006768L,0.0976968110243335134955416753236930L,0.117221371759045956640870381911014L,0.0538159633657894475489691108290650L,-0.00913812660915150276449997675889980L,0.00442145437638479597976802969363824L,-0.00247659113448428598994849887794055L,0.00136767921796329459490453992988933L,-0.000646090308141373862223136013098015L,0.000177770345416483362975029773521681L,
+0.0174425456973092601078527146718288L,0.0404957501866760362744094045943990L,0.0599156783591797288696216759240671L,0.0800113743471702541854782900716389L,0.0905982315924528417121003972430989L,0.105872213863507252143440143929819L,0.102489032475038857363789764584888L,0.117218296491110503807449570167327L,0.0512996159303239009914810164153045L,-0.00825355476177443477017029401778844L,0.00372286809792073625174003931854807L,-0.00187343439820994700252578555525291L,0.000845283684013857489244115657026879L,-0.000227717100773967206075140920667221L,
+0.0176567095513048294334431010415280L,0.0397361986708418500577297439905519L,0.0614454148960683679037104079444158L,0.0774768534096849128471085942410829L,0.0944477925982297785392948864393556L,0.100198224148443793570764361646665L,0.111055921818472128782737399397750L,0.102502102824992068173655021558826L,0.111727351863716623454206489925437L,0.0463845993694844534354291475312893L,-0.00697628789782296391410808440349049L,0.00283882297009718756296212534423074L,-0.00117435441190528548712103917728224L,0.000304968367469301622833203795234327L,
+0.0174795628483083434887895540100774L,0.0403613214393456706447433680319135L,0.0601987394695793353798811744454592L,0.0795088607002790799985270408843527L,0.0914417405394927495055534419113903L,0.104439442239399493941091435739326L,0.105140727132449428849713117839577L,0.111023210512301339953108520174781L,0.0977397444333899435229846742615378L,0.101002934103882265138280398565454L,0.0393007917895483836424004846559605L,-0.00536404920973559823019477687273153L,0.00181086918831643373269940447621332L,-0.000437442780714134493567936613643993L,
+0.0176248519392044115286060700064672L,0.0398503599457380237882233167420655L,0.0612110571899330110984868023030957L,0.0778764303264709140255449219149937L,0.0938168030420918897671829973284162L,0.101174701796808159756072608437109L,0.109503140282097779345661908940898L,0.105209153841035304071662862003398L,0.105762747183607237783593747191507L,0.0884347940334680014707907359179227L,0.0855408153342871184782540195079588L,0.0303796426719757961723537022681192L,-0.00348834718976076826180673738542408L,0.000704507137925617570270416148670639L,
+0.0175095083982726342178871903085750L,0.0402551035405518654124045816039014L,0.0604126040626820530672697352782947L,0.0791551767984332046118172762667311L,0.0919756307128301771933129561382156L,0.103665968338111605133389515326984L,0.106254814155401401521265278342843L,0.109366996695742536181078580164034L,0.100435371425422821679282923990316L,0.0954874252258583498717505983760459L,0.0750501718401270449416898014803661L,0.0660475722727306500729789504235553L,0.0200395217899400524514083192657136L,-0.00143842342431763768734013727663862L,
+0.0175924575863221332767052962139202L,0.0399644153712791126132989425900221L,0.0609846163923442644295778571381157L,0.0782427353477984228210847070933493L,0.0932815471518118279198264825437433L,0.101914538169607876529031149545768L,0.108508228737319346913052597785132L,0.106542287846916685350087827899353L,0.103929753423350717050688966345071L,0.0911580309804894433743738524054597L,0.0805596828758725717532993472030411L,0.0583215855720463558610098658609134L,0.0433621598103094457708035216935897L,0.00877986508293796575795821903454795L};
+
+initializer_list<long double> lb={0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060882729124L,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161732825403L,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278127732180L,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276041950345L,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799226224416L,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698742602854L,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843661072667L,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843659468872L,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698741354404L,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799221578134L,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276015196586L,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278148536558L,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161726341104L,0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060883202379L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<15,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.00768831049902931708865709839430110L,-0.00288207652296439580063546956640496L,0.00214977135688850644287947195441230L,-0.00173884965380298083558788216578044L,0.00144470413915726138708869767716335L,-0.00120875124593688546658128485877837L,-0.000829198279957270056165475383330968L,0.000668820975529917187940369682561850L,-0.000523450351172725058136595675165461L,0.000392046730691602014114395777496628L,-0.000274715621754918118582794977518628L,0.000172538127706577039763717164693461L,-0.0000877790602645868752966820187805339L,0.0000250623437545120994878446872165364L,0.00100730755285335470627173001460784L,
+0.0166362227509783404984961450415114L,0.0175915118720270311773168541126668L,-0.00466351386567139920910945192640114L,0.00315354205167060177481027904195496L,-0.00243709364541861248927066133075671L,0.00196545995211755642319833638016242L,0.00130260473646139385678049832465133L,-0.00104148556214203561932207449711480L,0.000810228194455859749132304352513766L,-0.000604288995041522705160129596905066L,0.000422194068522064401364461722620928L,-0.000264629686030523967638173133559916L,0.000134457272941865614537600421636876L,-0.0000383635400718623012778712595397459L,-0.00160354180515170935773759150854591L,
+0.0147596657935835599495579379109451L,0.0382453177464055777555361371553767L,0.0267898051167929837529673866714673L,-0.00616125782189826452701945604676958L,0.00388540778485748995650797025288780L,-0.00287258727158500903381330889237036L,-0.00176882660434387913394492107044070L,0.00138957805663066645209914875567541L,-0.00106833441025736725849353335977303L,0.000790333943391873816513817513980545L,-0.000549070190929407584415480432400551L,0.000342837152366744899109634183981507L,-0.000173768948419062931349295607481126L,0.0000495161011043642971631230913928475L,0.00223809184708612148925667948641971L,
+0.0157597621061541406071917707671331L,0.0335931318479854185736211582802462L,0.0583100851091268661824035925215984L,0.0348926694815385786119511986277571L,-0.00737940946173976384827296895623885L,0.00441096801812590706555516092206085L,0.00235280924473860437078970068009314L,-0.00179283158915975579588626926021054L,0.00135144263633254211230345864810751L,-0.000986609667339780165472251839726848L,0.000679266000451239434163117754700047L,-0.000421563716075716397819728976520931L,0.000212853647458382933211580026679770L,-0.0000605313101682632124896863746739518L,-0.00313090802751342417934286012797411L,
+0.0151094077411841340124542675513073L,0.0362144152536475076570565761402277L,0.0510754948901790939145299350867404L,0.0759798064004408833045786853890249L,0.0415673014542484833883002151203022L,-0.00828277336540880503184844886533352L,-0.00323039674394951171049944257284989L,0.00233558196615176564298443910486194L,-0.00170522856069432033507452748948227L,0.00121948195415413587624329276381805L,-0.000828185709088390761404758010888066L,0.000509364129493923943341426134730871L,-0.000255738444847295467362462157213771L,0.0000725131747848474283504476134943536L,0.00473286955543412436973698556430448L,
+0.0155763030989084244329229244789970L,0.0344401095551792856353578159705013L,0.0552331478312634465959558708141656L,0.0664782993761123615184061906266898L,0.0905323400785462625916172751622854L,0.0465402500038905527567001404666057L,0.00484679298140696426300794637272217L,-0.00317822423571163094902465918219191L,0.00219973318684740140886793973388926L,-0.00152302038826284084666941590870139L,0.00101321847710032825541555137730759L,-0.000614961686883209505797295930784541L,0.000306254025292725873549587624150750L,-0.0000864724368757241202958614665039038L,-0.00883944340559603285861769562965557L,
+0.0155025009302956829281881053093292L,0.0347305608049307295822013036311998L,0.0545152787351061594892301878123766L,0.0681643199523595268233594122982296L,0.0857860006893487479412995056538336L,0.0886264983355843505212644083221176L,0.0506445604813903182201550499918798L,-0.00884395744970946354663335487841734L,0.00445400167219675499213587261109381L,-0.00265139778085178116469907541322919L,0.00162101901071763040054298495728458L,-0.000935668501520191983295414469441973L,0.000452462939123332772432404594133889L,-0.000125879932237048750873908520726956L,0.108059700113265251774692518100337L,
+0.0152729660096446532887154273776346L,0.0355523462958812372687600312419467L,0.0528291945367959129786560876927991L,0.0710463622321110828606712156060207L,0.0811775780039442352442256266787681L,0.0960621911492772619098913177211643L,0.110317896556901683222398533330108L,0.0496078713317778941140295816109598L,-0.00829283528898673480148119897698628L,0.00396575402799720493942905295023015L,-0.00220218558160831593772050076925001L,0.00120863973412445964285627893313716L,-0.000568634048293621479668241547644885L,0.000156114201767673815646320252275934L,0.0944637878373826340839046195961349L,
+0.0154630934349343582976100582551061L,0.0348767697187613364810841206011829L,0.0541945719204691770117320692737192L,0.0687721204859768289684868458782066L,0.0846576232967598076232698461493058L,0.0908807668209337041045323411993222L,0.0964423279813736721773021536110375L,0.108055186069151821086676858851575L,0.0465402500038905527567001404666057L,-0.00739773717004929581501684492168096L,0.00330703958696479570549620662882437L,-0.00165353759767747909002109747123093L,0.000742914188874776719275892254832318L,-0.000199682100849790255608727690394819L,0.102393966899267419177083822404112L,
+0.0153041078232737867489637491751079L,0.0354387621889013578219961703825474L,0.0530702461040920435625933472082038L,0.0706135246721655479853071552664022L,0.0819151209543428309003571374767864L,0.0947857285684754258484748084226937L,0.104519517706730148150809542556610L,0.0944828731081216638583221776576152L,0.101363273373189910545248729798545L,0.0415673014542484833883002151203022L,-0.00619446743736372608067628813351075L,0.00250411534340687359140483825619426L,-0.00103139150959344530242286791489404L,0.000267213256874500164859929237294932L,0.0968801606974040225850747241170577L,
+0.0154371523082268973898038831632762L,0.0349701700965956794214221281986539L,0.0540011739496616839037545023194556L,0.0691060729626259177897392795008141L,0.0841212125758367469420726820803313L,0.0917290573714485634010968222851039L,0.0989363117180420320695203993036665L,0.102346650691069212407402023349894L,0.0886695319896551984478451200111506L,0.0905140123702367306248733991968433L,0.0348926694815385786119511986277571L,-0.00473047487554089867646881917866378L,0.00158989189606864378101254994508743L,-0.000383141108095506429877573978530933L,0.101008574252715544023945432482130L,
+0.0153271048969542698801510736972094L,0.0353567926924731252859830038328148L,0.0532367730812192226068251391589531L,0.0703344091540065648083178776879147L,0.0823442689651050929600866127266239L,0.0941488344180384727718938142929845L,0.103057947567124515574255021054200L,0.0969776508164696667388024837354999L,0.0959530872793661145472135898255818L,0.0792491951236394768200924599877166L,0.0759465967849754217509218533022837L,0.0267898051167929837529673866714673L,-0.00306229400235151540090242893004299L,0.000616955204475074227756258877657089L,0.0978261646069251217759600144662443L,
+0.0154149845381304964785920680481420L,0.0350485664711121967400961078036968L,0.0538442399196164914735729464764946L,0.0693631448945550928225379355328932L,0.0837388919035384894817605598375095L,0.0922702718133252457642679765806976L,0.0999865162263192425835296016591083L,0.100819284468707497585796754730466L,0.0911150400556635490902019445530490L,0.0855716965539155792658710915713611L,0.0666317969114065554490921182135592L,0.0582431240992573667150442252693358L,0.0175915118720270311773168541126668L,-0.00125960175291970632118194825290922L,0.100257228225697823847381237719034L,
+0.0153515586543041220778263521013857L,0.0352708028043186492299303902441142L,0.0534070721058793904661710561782412L,0.0700600545848320753424851922330328L,0.0827425561778053647624860344631078L,0.0936039503589538305715368766083769L,0.102118319242737906496475575367091L,0.0982084351107024335217874332073118L,0.0942892512537179909799815657919898L,0.0816898987693397053895117325634411L,0.0715241886168801380594902794212946L,0.0514298388766974610630553013885224L,0.0380651002670184581552691777917386L,0.00768831049902931708865709839430110L,0.0985469216880258710401187935393578L,
+0.0152205067962909603616678765363263L,0.0357516577923476838343019497729786L,0.0523709704994615078630784944097975L,0.0719875245446854731616228980247642L,0.0791688488804997618371713772903743L,0.101373335296767840314881479910198L,-0.00902877559412104678208843334634815L,0.00475195482617315414415454362578481L,-0.00298169114149615639649103678795289L,0.00195702490455273153237480356183629L,-0.00126102326903392563676881835050655L,0.000750415696790054527278685650135590L,-0.000369322551827174914126323016613038L,0.000103654988413980888598769410967572L,0.0496078713317778941140295816109598L};
+
+initializer_list<long double> lb={0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682830460390L,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588209219898L,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708189811013L,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498954293869L,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029809258764L,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924637160946L,0.1012891209627806364403100999837596574193310790047386783983520580257176993773730370466967203563940160676757413354149950886547623144359741096337832934569531306128042724779321515918252514989111725708462305198901935498672095408692145288881885618482355079091675828272564869301466038062774659511256247852975994681L,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302649829266L,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924593310703L,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029790738017L,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498847014021L,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708140197696L,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588143487435L,0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682840107698L,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302625108573L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<16,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.00678811485293852371294514311400453L,-0.00254981560166642060794569067228638L,0.00190909917813672352877801175229420L,0.00130038636167335289131149058789750L,-0.00109941397810467496743881733363378L,0.000928810382461165787713007929583067L,-0.000778400292638016970213471818843129L,0.000642913073058191572480402310603516L,-0.000519591764617300727073793902583398L,0.000407121321020350344602879245931763L,-0.000305112838734354656103913206664628L,0.000213868739423092125277034461916634L,0.0000683510931380568197932759579296331L,-0.00155293958635445852534156874682570L,-0.000134342751558613532849595377351067L,-0.0000195156840005830940114810271390690L,
+0.0146883557390946385758642521469263L,0.0155633809846619732157109592485944L,-0.00414132717596763996878861232853917L,-0.00219345482567798016982323843681041L,0.00178743918153624175343071841289058L,-0.00147829989566992546596208722498436L,0.00122248349189014866625509839220072L,-0.00100078933565830982842652679008346L,0.000803884822279940961686355000181995L,-0.000627151628945023668023605338992174L,0.000468554602991504934816921554325165L,-0.000327706017463433279300993976240050L,-0.000104467756262960729780516285484119L,0.00281624066329179723974536344229666L,0.000205533641770747263601026242237198L,0.0000298119715119924600006781741765009L,
+0.0130314887570029239238070779942658L,0.0338360541380276180593656116868798L,0.0237896279206231962024812769005616L,0.00349652217282333762047567566641019L,-0.00261183969113449188384120696449657L,0.00206262230133837007802008817731631L,-0.00165927082379871426000051462803313L,0.00133445175087720853587420167870525L,-0.00105910023568189585536302557340930L,0.000819360728618994732230322769157078L,-0.000608529289730636770195138989976567L,0.000423816016176219956789937505986881L,0.000134461891657840509651754065444609L,-0.00550189263400219470130649699861349L,-0.000265040935248507636968787866946170L,-0.0000383332614651404512547242794488369L,
+0.0133402027362754284067900662363016L,0.0320395557786961649790658295553046L,0.0453551063258562077032403018991998L,0.0373989972041441830203754326368696L,-0.00752716211388616522865856954022408L,0.00435798231923588344843112214714441L,-0.00302623842372018278324271394385074L,0.00223860976756049347672080923707275L,-0.00168603154019661600337826224358255L,0.00125982769450141872687683280008835L,-0.000913650835738432921668043535352149L,0.000625934326460294421810833241733622L,0.000194986345721210110687336877989096L,0.0678462253281563804520834767661078L,-0.000387087528108609216096437675937933L,-0.0000553795862795328163738964832596964L,
+0.0137527040949456381585719692773963L,0.0304689428780194995010284424119904L,0.0490485387199112662446557436788485L,0.0814547479489546900093434676951639L,0.0422891298487506345473280197575900L,-0.00813602844568463378031886725894453L,0.00453707368665636325875087328546242L,-0.00304264485970265102036782781614618L,0.00217120095070617941088324752289254L,-0.00156962068732266188109902536961831L,0.00111414665170165347439732078861472L,-0.000752443887085733211963936880960639L,-0.000230806350741480777897190755212045L,0.0593603918070741529829473498398750L,0.000460929012640643666572498339346957L,0.0000653498025627462459581939919122352L,
+0.0134381190018423601612728088869929L,0.0316307469463899425607317444310215L,0.0465043796221450675754501548802689L,0.0712277617588559187531155126205067L,0.0921151518921634601747533085146769L,0.0456508537612308972166909169923050L,-0.00844642793523074838713993385383526L,0.00454380119920973210288173064487636L,-0.00293743652117923594369543773037534L,0.00201131394852731722720980289781172L,-0.00138126417498597858451122992075628L,0.000913338905274806437438626010877776L,0.000274062032275837566195147338256161L,0.0642830051583429101538245285291243L,-0.000551919591017902593455885724942517L,-0.0000772613934738410359920452470569326L,
+0.0136877916707669093796072977755514L,0.0307250535496773673535467999086984L,0.0484126854179133761310679478949778L,0.0771876047046273585479673839730614L,0.0805272007369102555810475990728894L,0.0994428614738752770173381402428347L,0.0473626526137671240713491808020708L,-0.00844803342103768353509484825593283L,0.00437957742267448243151600841104754L,-0.00271671446709042054123135194433941L,0.00176767465118347190532670583864947L,-0.00113163758564593222063565130415360L,-0.000328859657486953683278381006855350L,0.0608634670250274359810760616176631L,0.000670277294016365106867027648281658L,0.0000921436520028463808704116130765519L,
+0.0134840860538742010450198746149325L,0.0314556216268109001147002995040442L,0.0469089785472300272980955261528415L,0.0730303197571048941354241594350898L,0.0872949741645916896358873914595194L,0.0869221300997873120018658255735624L,0.103173338648571931677793209860074L,0.0473626526137671240713491808020708L,-0.00814115395141348258395630625822473L,0.00405105896059101351360844044229058L,-0.00238961029633899250721651869932213L,0.00145101860273950004516207947834509L,0.000401708419646579077875118588490492L,0.0634461232134128682468737924001618L,-0.000833429576666983726105394093854658L,-0.000111561964889861953717011547542351L,
+0.0136534910993508884618823314750660L,0.0308526999370481088652267711589327L,0.0481311754322642949984184395260656L,0.0761792585832743446252620951944955L,0.0825669457489739518674462366173683L,0.0942391440436410303770772717149853L,0.0901815040283245160398166309592652L,0.103171733162764996529838295457977L,0.0456508537612308972166909169923050L,-0.00753689219466219108009726899949692L,0.00357023264943244728763535265323259L,-0.00196851953057597412758638743311610L,-0.000503984977065996129309825933832687L,0.0614011467224921295887995150851304L,0.00107487621910132482951239892085417L,0.000138110704034687264617477341016161L,
+0.0135108799033143011799320922360968L,0.0313575683200654272093191092524009L,0.0471183268286057487383900554617762L,0.0736838477565867125663535444851246L,0.0861478803848239309757550648847983L,0.0891305065717556150224985864617174L,0.0977679500872368991630661894202877L,0.0901882315408778848839474883186791L,0.0994377359681464282137007012435545L,0.0422891298487506345473280197575900L,-0.00665675354066632396859260242142458L,0.00295409382069278304329079125613317L,0.000657819091304446930393476085198443L,0.0630669295148526692382020779769688L,-0.00146928287866487383969318987772537L,-0.000176474389068590732681683049387217L,
+0.0136316092921565802422641827112687L,0.0309317756236027363207345816191998L,0.0479663433693550016210589914770610L,0.0757116452440267989624189088090914L,0.0833184320029998503677792067150916L,0.0929877390626584104367600962281925L,0.0924866954599737546659775523670688L,0.0977515436512544309259410755479923L,0.0869437252032259109849507118374656L,0.0921054218113874343233146090554041L,0.0373989972041441830203754326368696L,-0.00553173970038944442584533567009958L,-0.000912793809372218547643911058115780L,0.0616885513013066416044273078542746L,0.00222414951539018470172225190192333L,0.000236026969601619019100219991707471L,
+0.0135296349036562863191162942201955L,0.0312904546821617165141440676077688L,0.0472556577169880921728028129867975L,0.0740466661773180896227734476220056L,0.0855995373963959978740743695689147L,0.0899635050040873503460093591141703L,0.0964455266917309385424293315073437L,0.0925195872688501219803829673392555L,0.0941859356858218591189075637583719L,0.0805687246460556153515767050519785L,0.0814379117727585345112376205942748L,0.0311572428138834680131190705480041L,0.00140674278045478759427331892975439L,0.0628342944281682934073314379887084L,-0.00420088450714280999606686330035426L,-0.000338333283686824424560906113468200L,
+0.0135464177343650549658896080538326L,0.0312312297255869071612024347826730L,0.0473737221994756451413615275588859L,0.0743294398052968611059339437194141L,0.0852054113264462927626796448541722L,0.0904978227001818534716954789844280L,0.0957260945631925579711248883942250L,0.0935028217356440994764432632119408L,0.0927800074181317198993439212095943L,0.0827908205159650273412253211022894L,0.0769914492339663462105741037105497L,0.0594982449644751387864927776537115L,0.0155633809846619732157109592485944L,0.0626421916452303693055391350722483L,0.0517205830172140323737511661296623L,-0.00111212603321759114997396591891728L,
+0.0139145629895638718504511923414773L,0.0297200191888691588371485995674345L,0.0517801403483892024010294171014774L,-0.00663991736447016847048675532053550L,0.00400953505144565374307933446320152L,-0.00288422816336006468552572977376197L,0.00220571795868412616231539426488608L,-0.00172022146419669039973096990320212L,0.00133820251837444408737247487043966L,-0.00102127769889472877941833005373477L,0.000751328230970276417977417651733669L,-0.000519808800401357381093296892700162L,-0.000163692712837770082722149110579910L,0.0311572428138834680131190705480041L,0.000323598124258300232159740814325638L,0.0000465948022207611067739920078135380L,
+0.0136145629673421878771450105074579L,0.0309923000776661059217701644317442L,0.0478442967764949000419313416680693L,0.0754065236980190028109460042637158L,0.0837588989688822743624257167460229L,0.0923608077581436902887448595580193L,0.0933908534766570396068241599254363L,0.0963845760513329624026988762321747L,0.0892390852211234243553617458072937L,0.0871900993886357609784972464796766L,0.0713014722354650284202751896073291L,0.0678163782617691307275446380946217L,-0.00270929216870367162794369318969099L,0.0618906696115907160694482035900213L,0.0237896279206231962024812769005616L,0.000544740948874123502083208233743262L,
+0.0135957453898776305199017672551481L,0.0310584108761858896116286425392592L,0.0477135985928050059378121491784742L,0.0751031072470227206968547784804039L,0.0841711383764809187500531602692482L,0.0918212992870790951604556278871934L,0.0940823921544760565702179592935380L,0.0955037055201722651129118334229847L,0.0903728971400006286456688260550269L,0.0856776736756059440620948568488138L,0.0734976080466150131494393746858418L,0.0638674252141213945515797098428339L,0.0336765775709903670393676091694752L,0.0621006168883438439009611066340916L,0.0456701566631096688761845420488289L,0.00678811485293852371294514311400453L};
+
+initializer_list<long double> lb={0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003877547703L,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461123720529L,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935585656443L,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692531883301132L,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122526857723L,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938028225420036L,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403531555198L,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403333344607L,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938027679422200L,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122127735933L,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692532133026079L,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513866744923L,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461219664102L,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513836001130L,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935552934972L,0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003895390404L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
-- 
2.43.0


From f47df0611971dda50dfbffb65236460a5ad28aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 38/43] fix: SymplecticRK: weights must not be truncated to
 double in long double computations

---
 SymplecticRK/include/SymplecticRK.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index e26262c..22023ef 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -127,7 +127,7 @@ public:
 	
 	for(int i=0;i<nsteps;i++)
 	  {
-	    double bi=G.b[i];
+	    Double bi=G.b[i];
 #include "Ivdep.hpp"
 	    for(int j=0;j<n;j++)
 	      delta[j]+=bi*Y1[i*n+j];
-- 
2.43.0


From 5b0f19d3f5ed1d62d392c1eb877f8824028eeb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 39/43] fix: SymplecticRK: coefficients of the extrapolation

The right hand side of the linear system which defines them was transposed,
and the stages were not always in the order of those of the method.
---
 SymplecticRK/sage/compco.sage             |  7 ++-
 SymplecticRK/sage/generated_coeffs_co.hpp | 60 +++++++++++------------
 2 files changed, 33 insertions(+), 34 deletions(-)

diff --git a/SymplecticRK/sage/compco.sage b/SymplecticRK/sage/compco.sage
index 96a84bc..56f7fcc 100644
--- a/SymplecticRK/sage/compco.sage
+++ b/SymplecticRK/sage/compco.sage
@@ -21,12 +21,11 @@ def ccoeffs(s,Rcoeffs,Rpivot):
         for i in range(0,s):
             W[k,i]=((1+theRoots[i])^(k+1))/(k+1)
     Vt=V.transpose()
-    Wt=W.transpose()
     # computing in algebraic numbers is too slow.
     # first, convert the V and W ti Rpivot, which is supposed to be a
     # set of very precise floats:
     V1=Vt.change_ring(Rpivot)
-    W1=Wt.change_ring(Rpivot)
+    W1=W.change_ring(Rpivot)
     
     # the continuous extrapolation coefficients:
     result=(V1\W1).transpose()
@@ -48,9 +47,9 @@ for rng in rngs:
         print "\n",nm,i
         fout.write(a)
         ll=ccoeffs(i,Rout,Rpivot).list()
-        lc="initializer_list<double> lc={"
+        lc="initializer_list<"+nm+"> lc={"
         for l in ll:
-            lc+=str(l)+","
+            lc+=str(l)+("L" if nm=="long double" else "")+","
         lc=lc[:-1]+"};\n"
         fout.write(lc)
         fout.write(cc+"\n}\n")
diff --git a/SymplecticRK/sage/generated_coeffs_co.hpp b/SymplecticRK/sage/generated_coeffs_co.hpp
index 2685943..666077a 100644
--- a/SymplecticRK/sage/generated_coeffs_co.hpp
+++ b/SymplecticRK/sage/generated_coeffs_co.hpp
@@ -1,180 +1,180 @@
 template<> void extrapcoeffs<2,double>(double* c)
 {
-initializer_list<double> lc={-1.44337567297,2.65470053838,-1.76853598869,2.50218995347};
+initializer_list<double> lc={0.38397459621556135,0.82735026918962576,-0.32735026918962576,2.1160254037844386};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<3,double>(double* c)
 {
-initializer_list<double> lc={1.0,-3.32379000772,3.4364916731,1.64959666924,-4.78568501159,3.75514084041,2.94601792214,-7.74471701777,5.257912926};
+initializer_list<double> lc={0.31350832689629156,0.32379000772445013,0.47540333075851662,0.76587708172407289,-1.0,1.7341229182759271,2.0245966692414834,-4.3237900077244501,4.1864916731037084};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<4,double>(double* c)
 {
-initializer_list<double> lc={-0.135307244905,1.36140068465,-3.97544968198,3.81878808643,-0.537612925376,3.00404135671,-6.49890590866,4.60431971203,-1.63717031842,6.84757575689,-11.9249796864,7.12227177835,-4.10029878722,14.775159637,-22.3365646865,11.9887073781};
+initializer_list<double> lc={0.15989279407363723,0.37467451466384673,0.23268866705493049,0.30217586841055926,-0.098136952123718725,1.2174199122299011,-1.1260403811348734,1.3367668992362628,-1.5556502648870111,5.7121772947174384,-7.4114760071012121,4.9249394990632129,-4.3883127819931243,14.148795719875282,-18.364078082882805,10.534163300797674};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<5,double>(double* c)
 {
-initializer_list<double> lc={-12.408089245,33.2494963344,-38.2237939377,-5.02873063466,23.45802756,-22.9802116869,61.1304952923,-69.7821321607,-11.6080506014,43.7879095114,-42.1725807055,111.473716235,-126.392162977,-22.5124628922,79.9859687145,-77.0853906901,202.751332845,-228.757413486,-42.1641229899,145.55590967,-140.652179469,368.574355006,-414.483182984,-78.0638446566,264.876374636};
+initializer_list<double> lc={0.12498488732576488,0.21658077449536788,0.32888588369978518,0.2074461984224547,0.16901233308729536,0.27364333488551201,-0.28734111168816228,1.2456605460746774,1.0277335938790646,-1.0289310182039334,1.5623706782549472,-4.5130911923738759,8.36,5.0057166388272556,-8.9149961247083269,13.890581357466428,-43.576026004688035,69.573194682360493,31.032923146176478,-68.967583258346032,6.3835073571560199,-19.929096537684949,32.958925554531711,16.08646520286414,-33.73056692181408};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<6,double>(double* c)
 {
-initializer_list<double> lc={1.49639906744,-4.95180935208,8.16737188579,-7.44012682161,1.31773061431,2.44419984905,3.46885805125,-10.9780747982,16.5595161236,-13.6754887605,2.9031131121,2.25641156057,7.11511835867,-21.6456349346,30.2555924942,-22.3416240113,3.47355841317,3.51124117949,13.5351598873,-39.6617231803,51.4704918804,-33.0427203787,0.857972597258,7.12633339479,24.2342876135,-68.298636147,81.5084716482,-42.1205642015,-11.0450057011,15.9575705137,40.9593172786,-110.308373491,117.679699401,-37.7198023313,-46.7864069848,36.3789798789};
+initializer_list<double> lc={0.082248301934203748,0.1923099048212986,0.2105543804763861,0.2713156988580679,0.12663339487681296,0.15070356193165467,-0.0067199594674144669,0.49857960421399864,-0.36970621785903784,1.1278642697880841,-0.88224651913484966,0.80162412922608697,-1.0315397794452812,3.9562130088098408,-6.6354010262464402,9.5881647313138071,-9.2215777769263858,4.724831249452861,-6.8773772579557765,23.335590306866353,-40.485838856910188,52.385159293427172,-47.155464553257847,20.417240660871885,-23.600725723099556,78.083696159872866,-133.7488776327971,165.53365056110255,-141.79647094865355,57.359332276807925,-45.95447907707329,150.71499898344432,-255.68109330351501,310.12792113489154,-259.20699775597061,101.96588477532462};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<7,double>(double* c)
 {
-initializer_list<double> lc={-1.91120187841,6.65652759191,-12.7292168649,18.1176202649,-17.4616733791,7.96098671628,0.392403593092,-5.19865835727,17.7863259876,-32.5093393348,42.6183498714,-37.9642372565,18.1682283162,-2.37489943226,-12.6924582123,42.5222463482,-74.518286234,91.7241851084,-76.7869482599,36.4779223931,-6.36722877294,-28.8016213917,94.5845579493,-159.757941566,186.855037157,-148.584647226,69.0276582948,-13.0466093395,-61.8496467489,199.450073684,-326.127694831,365.115860088,-277.225297295,124.64287708,-23.7793975572,-127.150589514,403.254742675,-640.329586138,688.994905272,-500.006854823,214.902196978,-39.4710270061,-252.15521835,787.350624132,-1216.36742045,1259.72396109,-871.096011391,351.30665463,-58.5922594642};
+initializer_list<double> lc={0.066694157067082771,0.13302610428144919,0.20432104904757126,0.18758332570863265,0.22177142974687863,0.097814252334998404,0.11423572564200783,0.12225558298345897,-0.059644023076393396,0.57557668748088992,-0.38276779804533523,0.9796235015597571,-0.74279045787675478,0.63698091417468019,0.90244276945669078,-2.730905353140209,5.585665595807602,-7.6973582050900369,9.8049262036592652,-8.8625743442493378,4.2948807578673273,6.911048001671363,-23.051500805521309,42.748457829116014,-59.600816326530612,67.96501251868551,-56.608649567489848,23.136448350068882,32.624606217765641,-109.16023685370263,197.18401599683164,-268.43749294448746,290.83086696962501,-228.13377703228373,86.794940221940231,93.392066316227961,-311.25118522995041,554.81273505639306,-741.88344886547933,781.14992194974,-592.09789117927699,217.74856754514541,165.99161408822487,-551.67930445669671,976.90034704024525,-1293.8221827025594,1343.2897736702023,-1001.4808184896293,362.7751248063843};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<8,double>(double* c)
 {
-initializer_list<double> lc={1.89420696335,-6.74595407993,13.6174313879,-22.132553149,30.1354696018,-30.0535602846,16.7813564647,-2.47654183242,5.53044980217,-19.7123802551,39.4552306842,-61.8202807478,77.9162549778,-71.9170865716,40.5605506614,-9.49268636734,15.363658868,-54.123002333,105.511418086,-157.829742275,186.583239525,-162.508358369,90.6500150975,-23.2936433612,40.031262635,-138.963091718,263.310898325,-377.485157226,423.961919654,-353.32079978,194.472041372,-51.736618989,98.3082610019,-336.410045088,621.002616501,-858.38310495,925.006181743,-744.496924144,404.381959445,-109.188285178,229.68525606,-775.805079808,1399.49183211,-1875.32610048,1953.09767699,-1527.59865051,819.073480824,-222.430881405,515.019542668,-1719.44701492,3039.71234666,-3966.04428446,4012.90466143,-3062.61683487,1621.13250704,-440.496988745,1116.20019082,-3688.02824601,6404.57927459,-8163.93419172,8055.10446748,-6014.38469251,3141.79531687,-851.185828495};
+initializer_list<double> lc={0.049420761717515745,0.11536728095184687,0.14864806174188562,0.19442625890104008,0.16254055033311831,0.18239474534522117,0.077573108921079214,0.089484303839524874,0.013300460229500221,0.2410999059547615,-0.095598074645919057,0.57583324590658952,-0.36403093935343507,0.84000848979239384,-0.62450447268944549,0.51555814609874117,-0.57182483180564688,2.2609341397476293,-3.9523457891762485,6.415062499972013,-7.9942252639913441,9.4498826700650308,-8.202801128799655,3.8325514990300569,-6.2055720602237183,21.538947816057256,-40.121065688417256,59.549075398466006,-74.069493384193203,78.301365464639972,-61.990567285596838,24.405592418019957,-38.672519866404899,131.79608986334273,-243.92271853085914,351.70382986341668,-423.99988655232322,423.73878470246327,-313.91115585585189,114.8592936974643,-151.10728513421231,511.38235043712464,-937.66506887624241,1328.4868191705625,-1563.7805488455626,1510.3415699295882,-1075.244513873787,379.34944339748711,-381.18901196363382,1284.9447920798569,-2340.4098271705933,3279.687335764755,-3802.1577137522581,3598.7122737089889,-2504.7583779575766,867.06886252916785,-633.32892218405312,2130.5287284650719,-3866.4963958875529,5387.147202012538,-6195.968052976639,5805.0686254035227,-3996.0004842079884,1371.0294443033496};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<9,double>(double* c)
 {
-initializer_list<double> lc={-1122.37853338,3472.68754318,-5504.45857588,6520.15683125,-6431.97481547,-3953.50621673,2206.96334712,-660.40380391,5473.9301437,-1914.7778661,5932.53450524,-9428.91945106,11216.0748506,-11125.8798997,-6912.00810877,3871.70671922,-1162.48089934,9524.26619653,-3274.83030101,10163.8796249,-16207.6950809,19376.3029153,-19340.6549967,-12151.0136569,6829.03899734,-2055.08098275,16660.4029888,-5619.52492914,17477.6969539,-27980.8781112,33643.742089,-33812.4379163,-21491.7442429,12118.7108868,-3654.13234968,29318.8339236,-9683.02778742,30191.0984813,-48555.8620493,58758.7621201,-59488.5400632,-38262.862585,21645.719529,-6538.6887877,51933.6175771,-16768.2775095,52433.0530607,-84762.943622,103294.652424,-105386.284586,-68592.1313721,38924.8891361,-11778.2331295,92635.4588314,-29207.2223989,91624.2219839,-148960.586248,182886.590426,-188071.3573,-123838.09109,70484.0237189,-21360.8747191,166443.455185,-51210.2317156,161218.510225,-263703.274243,326284.408454,-338210.338807,-225193.491246,128522.371261,-39004.8633662,301297.051273,-90447.2628019,285824.206502,-470505.856564,586777.442858,-612990.305675,-412443.878277,235971.359585,-71703.7225379,549518.144994};
+initializer_list<double> lc={0.041406872596194042,0.087629803432760769,0.13559904583663698,0.14773769646947344,0.17720820985437403,0.15162961206938475,0.062904792100933896,0.071945703428829159,0.13985814445759989,0.065746922536668112,0.0027217720772848388,0.30125077627377321,-0.11295169812588143,0.54262328976664409,0.7194741517742726,-0.52781051483400974,0.42438659288140013,-0.33345684601346971,0.50417600664367267,-1.5180302491259905,3.2344449213794993,-4.6386110599250525,6.678200714278875,8.8225026749596546,-7.4471152610597984,3.3925448518447145,-7.83479831534587,5.5111912101522109,-18.776192679379549,36.108578875891876,-54.310071300569647,71.799357635877237,83.813219192047934,-64.067965875484572,24.582616247664111,-83.322860017901503,41.836613575611753,-143.25275521542197,270.54058510190528,-402.0525034017799,515.05931972789116,546.01161579402602,-388.89383869847282,138.57097492886608,-576.32001181262559,703.55043252262717,-2393.5278515442909,4447.5332799930049,-6458.4710434933873,7985.0786589509543,7584.5848492545451,-5041.2368829696734,1694.4580213340847,-8520.1627783315142,1606.242414067206,-5452.3602599026777,10087.465347090371,-14552.378419892259,17825.462096955924,16483.997279958167,-10792.16331881948,3586.0086322657408,-18790.355756169329,2529.8852011985256,-8577.139554574262,15831.722510594372,-22758.694184309579,27740.824626472742,25302.134165256742,-16441.317312513723,5432.69063664898,-29058.122008654044,209.73132510145585,-715.79425059864549,1338.8747535956389,-1963.6613188623969,2463.3044367718499,2443.8865977237461,-1667.1363581897124,572.09693024718534,-2679.6399890774193};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<10,double>(double* c)
 {
-initializer_list<double> lc={0.308663498962,-1.29519460574,3.36383134545,-7.46704170044,15.1437435757,-28.1149391888,44.7273120244,-51.5468873805,34.8175242682,-8.92396510146,-1.52106932316,4.14309699845,-3.67385821193,-5.25448732422,28.95742032,-69.7158024027,113.808925825,-125.650392502,84.3362434534,-24.9169449878,-5.26633494681,14.0368589575,-11.5048220161,-19.1837058143,92.6464892649,-203.805901382,304.096737469,-313.084697416,204.840965826,-62.4290389159,-8.46011269871,16.4702023862,13.9265076842,-123.39719457,335.075694205,-610.239318307,814.289832541,-782.039663126,497.22285009,-152.585493915,2.85784472551,-43.875369634,200.987582636,-554.782865358,1120.85134677,-1755.45047972,2129.77846411,-1928.32159817,1194.24411089,-366.07564461,77.7416181475,-350.00229101,940.823596306,-1977.78018208,3401.01353213,-4787.03644976,5394.40129008,-4658.8833649,2821.43834788,-861.535950371,360.492913314,-1423.928114,3299.03903313,-6112.1016414,9519.30549545,-12416.5342876,13224.3365873,-11003.2836784,6540.9944556,-1988.16433762,1235.84509505,-4630.7691585,9979.27495265,-17168.6773711,25013.4235245,-30849.4547948,31456.6605105,-25411.2563894,14876.2787364,-4501.18644685,3665.76412838,-13337.6168579,27506.1866443,-45044.5026383,62547.2188502,-73924.928646,72845.6222724,-57467.2199843,33218.1637381,-10008.5626471,9947.44870156,-35502.9301051,71045.7171228,-112274.005155,150333.185554,-171852.487297,164767.956597,-127498.319899,72920.0349228,-21886.4866025};
+initializer_list<double> lc={0.032817567447025521,0.076539596479693655,0.10597895656517722,0.14031060185311428,0.13964101921507218,0.15867423364336609,0.1204982263866933,0.12753244536561744,0.05197493529708209,0.059079153488572374,0.015890657729124933,0.13566306689210785,-0.0096522525096870363,0.3230278309110694,-0.11828226664088223,0.49744561063076659,-0.30033545602113866,0.61862723861950721,-0.44955029976738651,0.35463418681202621,-0.31462457106901134,1.2855212803456193,-2.2408757770042441,3.8024794962963999,-4.9260152244315229,6.5949615746238165,-7.435933800290924,8.096912921308356,-6.6983321988558161,2.9962015149278145,-4.6269308398862058,16.218584326782425,-30.956578560592713,47.922343177708527,-64.490318905564787,79.472051154710964,-88.075544864841411,85.579538563819433,-63.785720880146835,24.025879130945978,-42.184394810798413,145.69016598117718,-277.77020808914484,421.87886414786639,-558.84414644496345,665.94015204065714,-708.90102324883848,646.94464711645286,-447.95352673967123,156.62503287777203,-260.43445157509149,895.09226216493461,-1695.660026349706,2544.9094849786798,-3317.3404806025422,3860.2352264649706,-3982.1674255447834,3488.4882160295975,-2308.3709698711705,776.82260147460184,-1107.9322997556008,3795.7772898826063,-7150.6660548829509,10636.597747641433,-13691.799336858318,15659.354343575705,-15797.623164040777,13471.002425610036,-8667.387834852403,2854.3935813773348,-3296.12754312672,11266.777893179395,-21136.12704634628,31237.002148374086,-39846.819346009558,45026.214444899339,-44741.906227577689,37490.890346579085,-23706.192674608435,7708.1277094209263,-6947.9760833095572,23713.304385513001,-44360.317458303016,65279.157759284032,-82778.50148849625,92814.068532695541,-91352.588011972387,75730.789674068004,-47392.454047369612,15296.449269573588,-10481.505655156458,35743.584675043401,-66763.116489920015,98019.245093450277,-123900.23004187006,138350.3925213397,-135494.46089192564,111705.65494804135,-69540.023042514552,22362.445836776254};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<11,double>(double* c)
 {
-initializer_list<double> lc={1.28345332953,-4.27998592189,7.59540310133,-9.98511988159,9.64315306443,-3.73259896712,-11.3877379351,35.3405245192,-51.382487296,38.8781588539,-10.9618771957,9.46855400714,-32.0195893685,58.5099602936,-81.5126344765,90.8904633697,-73.4833239415,20.1397550094,55.0922277423,-102.260776728,81.865351046,-26.1790420342,34.3884653395,-115.61589478,208.794768527,-285.272151779,309.624966821,-245.293015237,82.7160656156,117.368627412,-229.778103817,184.536351626,-61.1257417957,98.1642087045,-326.845019292,578.987007651,-765.920285624,789.287057295,-570.306499383,127.375115413,350.218080115,-578.398965785,446.040533667,-148.340168051,242.387267698,-797.053187627,1377.14428637,-1744.67226072,1664.14867572,-999.371664152,-109.975135997,1158.48291481,-1544.72402365,1123.75508259,-369.910829783,534.715125331,-1730.14242785,2891.43487108,-3443.3957796,2883.59356477,-1043.71434623,-1559.52460031,3697.85201817,-4167.0925246,2865.78391916,-929.331967018,1059.99977058,-3352.02194888,5329.35525135,-5715.85605147,3548.72722732,1197.39105197,-6993.6782225,11043.3416496,-11054.3183018,7255.0991605,-2317.88548182,1852.21199941,-5637.0019716,8173.34866549,-6841.49639921,12.1626382977,11586.7893354,-23934.1825885,30966.1760813,-28538.9966541,18053.7852301,-5692.66002711,2648.83579595,-7388.8148794,8206.57220819,-135.922725682,-19094.4939848,46264.469826,-71561.7634814,82345.1278496,-71555.6590942,43991.0849983,-13719.3140296,2170.0357791,-3628.4258944,-5845.91594461,34807.8356075,-85141.0796169,146658.654494,-196651.578541,209626.444936,-174478.586821,104902.908768,-32420.1813326,-3791.10948405,21198.8863786,-66862.4933941,153553.395661,-278611.852098,414080.236041,-509452.248331,514808.611701,-414803.483335,245049.163905,-75169.0046371};
+initializer_list<double> lc={0.028195580601321418,0.061525136403557883,0.09563091819743734,0.11263857649331633,0.13705807419362489,0.12888437334666639,0.14116064171154833,0.10431323428209652,0.10848053533771719,0.04363131115939569,0.049367289200289527,0.040295672951435632,0.019227307533418494,0.17847870339283262,-0.018581625667993306,0.32296069200223276,-0.11680668458987692,0.45028175364306378,-0.26864764548813862,0.53509448683224597,-0.38614057668549138,0.30030661619222331,0.29182881049691127,-0.85753262485355847,1.8862149803884446,-2.6987701255245737,4.0660359437708203,-4.9539159887494299,6.3199909849187572,-6.9305931243784277,7.3655613658361709,-6.0025091792409081,2.6486129545487689,3.9394053118052612,-13.527842930657564,26.400953206804862,-40.760428852663701,56.353750736526282,-70.867163053200311,83.342251956067421,-89.415522275088235,84.720193881012784,-61.967327597575979,23.022181552365775,40.759014922661874,-140.97682924624652,271.34181511695064,-417.02487405097328,565.12524680810703,-697.65009483103975,792.02874602830136,-813.8636751192962,722.6840600608015,-490.00750512877177,168.94932386152894,298.55197149998527,-1030.4490317820531,1970.4287631639013,-3002.384639786697,4013.0965086393079,-4864.240231629842,5380.8005454863498,-5345.0177800863275,4546.3740634747751,-2941.4380434864868,975.7778745070872,1551.005166477874,-5339.9999175776332,10160.369624102049,-15365.983067753442,20317.280368567359,-24267.557050521233,26326.603113963792,-25517.195508046746,21085.843419872973,-13247.181806873167,4298.4504293661505,5773.4517230011984,-19836.821109223823,37596.912104281848,-56525.052447606809,74120.73353801771,-87557.174567641609,93645.499154063221,-89209.678214603948,72299.279430691709,-44576.721779434683,14271.331716519789,15573.17552584413,-53425.005900948191,100966.31564990164,-151139.87307219339,196997.37240442666,-230873.99363291561,244485.97741948097,-230176.60031087958,184168.8698180702,-112197.24176209133,35622.868937307283,30743.986604713939,-105359.77610826945,198731.84668814359,-296625.04904639578,385082.42093865701,-448966.65588803203,472394.02089845707,-441431.30234628729,350394.20744442635,-211910.59689726026,66948.84124314673,44757.330757205538,-153296.26029866895,288846.55437784078,-430449.87569713721,557611.54047500818,-648311.67958558954,679818.04722479637,-632767.16178659216,500196.13214315178,-301376.88245132181,94974.243955636092};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<12,double>(double* c)
 {
-initializer_list<double> lc={15089.6077412,-53536.9962449,104840.018463,-159648.115779,206416.266093,240636.81228,-221694.604513,181871.372682,-128190.789961,70468.6334161,-20985.8179728,-235265.376985,28230.9710189,-98874.2923647,190492.731233,-285935.71315,365799.749635,421386.052189,-386996.777548,316827.27553,-223020.143639,122501.067276,-36468.3105543,-413942.100365,52292.9454372,-181404.117583,345209.211856,-512414.881608,650048.796101,741649.553947,-679389.050542,555284.598528,-390466.901886,214343.197882,-63790.395958,-731362.613537,96279.0595494,-331595.471002,625079.376283,-919779.734335,1159066.80911,1312188.60073,-1199583.55742,979182.34372,-687993.472264,377490.508124,-112318.934465,-1298015.26868,176667.47621,-605131.078376,1132403.17652,-1654919.02823,2074432.1324,2333997.90247,-2130302.02563,1737185.63371,-1219868.36032,669099.863655,-199053.374229,-2314512.10878,323688.526141,-1104048.61075,2054350.61393,-2986179.58277,3727484.02299,4173476.01998,-3804634.83665,3100351.73784,-2176245.98501,1193428.56128,-355005.196822,-4146665.09404,592937.913578,-2015837.79872,3734425.79298,-5405488.49317,6725129.6863,7501421.54126,-6832524.60415,5565197.04923,-3905565.35904,2141568.21151,-637023.57063,-7464240.21682,1086911.58953,-3685923.82924,6804923.17256,-9817611.77562,12183030.3656,13550953.2815,-12335656.7159,10045251.031,-7049193.24159,3865373.54895,-1149803.68732,-13498253.6049,1995031.30797,-6752372.60049,12433068.3466,-17891881.8747,22159120.9757,24597734.0808,-22385217.2645,18228364.7034,-12792755.6566,7015530.26226,-2087000.277,-24519621.8827,3668208.07126,-12396829.5393,22779583.7138,-32717660.7046,40461952.3742,44857067.5948,-40820536.7204,33245555.9164,-23336967.003,12800339.6087,-3808310.10819,-44732403.0942,6758064.27148,-22813101.8672,41855173.5986,-60029154.8365,74162325.3858,82165194.2035,-74785167.0328,60927318.2191,-42782718.0432,23472462.9113,-6984498.74558,-81945897.9639,12477486.577,-42084255.4702,77124300.3397,-110500370.395,136428323.356,151140394.156,-137618632.141,112171290.232,-78800536.8712,43247542.5636,-12871189.3215,-150714352.933};
+initializer_list<double> lc={0.023328156695618878,0.05437837438630378,0.078253518993383871,0.10442652008979342,0.11268735426965339,0.11760945572097752,0.12544934051292522,0.090855085759087879,0.093242206672144006,0.03712721536394143,0.041860272304492568,0.13000218210831841,0.014467769206243955,0.085367413105974383,0.017498420576951891,0.20079152584528143,-0.024113056292279353,-0.11179245631890803,0.40547500665395321,-0.23988538303130231,0.46594677450992138,-0.33446128793694124,0.2572914765953476,0.31135516890051966,-0.17906149073161188,0.76080703390994804,-1.3013595479272452,2.2790244647563722,-2.9451184060834283,-4.8261469487955542,5.9510009044401324,-6.3946043374552753,6.6734138962139977,-5.3762898801888066,2.347649644167648,4.1257333305966707,-3.234677760081169,11.397323929913389,-21.966182020053449,34.583119557936651,-47.809272032275131,-74.142022242627175,84.360808127665149,-88.374148918948612,82.161104000458678,-59.235479449785148,21.777131273464099,61.688636557189411,-38.039064533456283,132.2169951913787,-255.47208460721246,396.61977822818861,-544.57535580401236,-810.2824581218305,888.77741396675668,-889.76872291346923,773.92569953678811,-516.4091280081139,176.16613174348561,688.15687957199794,-1985.430119092236,6861.3986663917492,-13149.16891430676,20123.19753575986,-27102.36171275851,-37822.833993708955,39505.521930577979,-37169.80642702356,29994.771624705687,-18507.2697895645,5938.7241752423229,33314.819640481177,-8955.637810220677,30891.772100638642,-58997.630901863818,89815.092464545638,-120080.36331985849,-163844.5686133115,168434.01626269153,-155503.74192538052,122904.11024689978,-74355.171186949405,23532.126675240179,146161.67992331815,-29855.9346447295,102834.16023419844,-195860.85546383065,296945.14052352217,-394755.94226931422,-529546.50966172056,538099.28218607065,-490172.84823060787,381941.2928708752,-228084.42744286625,71549.919698103117,476908.51585927663,-74232.873023309087,255403.27686651182,-485464.96189939566,733781.45445932585,-971423.29701010808,-1287287.8850629139,1297474.7620805541,-1171078.7265075211,903838.7051222434,-535173.07783741374,166934.89504488936,1167229.6127184741,-138729.64984624559,476954.43240178483,-905346.05794909745,1365638.696820856,-1802880.0787633678,-2369912.453141226,2376087.9053058298,-2132025.0877270679,1635648.4714419476,-963392.42285615563,299468.21581293538,2158489.9805584349,-196015.22709371491,673629.20534577684,-1277715.819897343,1925182.1130575464,-2537730.7197678353,-3321434.6098495044,3320732.9101267688,-2970384.3950520617,2271672.5628324281,-1334354.5058664788,414041.32018392145,3032379.1567608137,-322.35571991124832,1116.6143547870953,-2148.65117049045,3309.5311473010843,-4497.7596772387871,-6460.1243307475041,6892.3229622133872,-6657.5351506596017,5538.0071610424364,-3522.1764379805783,1155.8158331396385,5597.748411840272};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<13,double>(double* c)
 {
-initializer_list<double> lc={6.18176128297,-21.4088030062,41.2032239688,-63.4925321578,86.3571897811,-107.37632351,122.748985605,-125.821025934,106.229079053,-57.7526517733,2.80796017296,18.1708135972,-6.83976860739,29.3715050623,-102.45868763,199.730079683,-313.287981524,435.283609025,-553.316659533,644.617014805,-671.512946001,592.414474957,-405.397306015,192.298188004,-57.7355397268,10.5021886374,109.796819223,-383.654439846,749.646798473,-1177.90902594,1634.98888026,-2065.08918374,2373.27152366,-2428.28240822,2125.01151597,-1509.14992576,827.974187706,-338.771145183,82.5077078987,364.401954969,-1271.80909826,2478.21640893,-3872.7161127,5323.59355928,-6621.91504359,7452.81646658,-7451.89638293,6417.05041467,-4587.76010388,2635.93729272,-1166.60756702,300.946214002,1110.79189233,-3866.30184334,7493.29352089,-11606.4586261,15745.0210292,-19234.1396905,21174.1547851,-20690.3178434,17506.3965183,-12473.8653003,7292.45935786,-3328.68586832,877.860102844,3161.02032178,-10964.3493825,21110.1464575,-32364.1647395,43278.2882637,-51901.9534222,55922.2707454,-53464.3405854,44445.0167831,-31415.5750375,18452.4160238,-8528.39532119,2269.79462605,8490.0076635,-29336.8868751,56085.2395004,-85072.1387735,112128.402232,-132074.219978,139424.996684,-130566.051911,106640.585243,-74553.3496964,43673.3110434,-20238.3420851,5398.59790906,21701.0715115,-74694.6450483,141774.993514,-212768.931787,276492.598491,-320079.347135,331357.217692,-304161.301075,243983.247241,-168255.31019,97756.3411377,-45106.1141708,12000.312948,53134.4532336,-182171.241919,343302.081579,-509820.80728,653408.89606,-743800.778543,755513.715009,-679849.17708,535020.381473,-362827.156967,207941.321012,-94917.9017131,25066.3344108,125260.221645,-427775.383558,800421.970058,-1176374.00052,1487289.40127,-1665182.927,1659589.03838,-1463019.3603,1127277.9417,-748623.139641,420421.710975,-188363.541185,49078.1763737,285435.621257,-970970.137533,1803904.90932,-2623774.17869,3272253.9117,-3602686.1396,3520781.83805,-3035720.68995,2282330.82018,-1475068.60792,803962.169861,-349385.312719,88935.8951921,630588.341479,-2136555.49975,3940754.33118,-5671472.01365,6974776.15211,-7545791.03787,7220033.32146,-6070708.01759,4428377.46844,-2757640.92178,1435328.02815,-591985.665722,144295.605122,1353394.5182,-4566738.44274,8360156.71941,-11899632.0457,14418794.5516,-15305946.4351,14300015.9164,-11665769.7633,8178866.87936,-4821525.68873,2321358.07934,-863429.147653,190454.944197};
+initializer_list<double> lc={0.020433145643952309,0.045391411019605065,0.070752039829516648,0.086979308324139465,0.10689585756553782,0.10915025050132424,0.12138343237294281,0.10678808383404475,0.11167510889256078,0.079648150122843958,0.080907918011481709,0.031964142760226231,0.035939623762530142,0.027059735461252183,0.02220691606742953,0.11623455358370199,0.014773099420698318,0.20952519284911704,-0.027128735313694389,0.29420190040329114,-0.10514215877974579,0.36468120600653802,-0.21441417331947947,0.40849153532338242,-0.29201033323916432,0.22272206192518434,0.17766242518513402,-0.50387419290425362,1.1451680438166969,-1.6109041003706678,2.5036773192119173,-3.041601465306033,4.0577625126232035,-4.6121474634792279,5.5462785207391229,-5.8687188105064553,6.0394081018485351,-4.8219210037945401,2.0884210675699132,2.7262990790761743,-9.3887480000138383,18.456138242575728,-28.797143368434989,40.529534496934042,-52.371260884698926,64.519426281737694,-75.091232520650558,83.38346126608125,-85.781138903983016,78.590511864559468,-56.025423269430834,20.428401046527635,34.808967639235795,-120.989268252231,235.00102158083103,-366.69809930324115,508.77855574088689,-651.89363479719821,785.97390376599632,-894.78082846587205,956.7422774345021,-938.95811256094854,803.73634087937289,-529.62634245054256,179.18097241369027,333.02792308437389,-1156.1414475681405,2235.5422096045414,-3469.1730168421493,4770.3032847556961,-6042.1099443048095,7166.1922466258048,-7984.8208463008516,8292.7175996055442,-7840.7132005912182,6410.5119085408593,-4023.0521072432317,1309.1001614756035,2372.6595762250932,-8222.1337837898534,15841.712429931736,-24452.902677752414,33368.459960561325,-41833.243210959671,48941.660594151104,-53573.139425992736,54393.607509635927,-50026.643263435078,39634.842786682136,-24115.388138252598,7672.0076429950293,12634.341147977197,-43711.794811986403,83964.944058754566,-129013.56923292737,174927.52521768636,-217437.19873305028,251577.95181624004,-271546.66791242799,270991.70176459553,-244254.88696392504,189344.952887889,-112888.60661152382,35412.922601856183,50624.162770892037,-174911.51004635063,335145.15347232205,-513024.23690001115,691998.47433973661,-854300.7998448977,979853.3770788889,-1046266.3543702073,1030739.3306909719,-915555.43389203497,699014.83843428204,-411103.52473527748,127788.2472480612,153812.7339178201,-530870.48360598046,1015189.6154220702,-1549424.1980693097,2081522.5865828607,-2556217.0973566006,2912514.1387175961,-3084914.2726459134,3010550.9012900868,-2646313.239392304,1999129.3785767203,-1164878.1712234909,359899.92896111475,356980.47600126425,-1231100.9769139612,2350792.214626261,-3580023.7772989106,4795134.3224958765,-5865997.5330819474,6651592.6712316568,-7004743.8063465151,6790518.2565254315,-5925873.7359020056,4444484.8888240842,-2573775.5283088762,792014.4289366873,636790.31686066234,-2194876.1701386994,4186954.9350874956,-6366887.414542312,8510799.3390423678,-10384624.572066936,11737862.118939989,-12314148.950637654,11885865.643938505,-10324154.301775731,7707827.9275740037,-4446204.7708006836,1364797.8573181919,877114.79375128868,-3022322.5072404997,5762252.9672613897,-8755276.1884392628,11690627.819230227,-14244575.341933395,16073051.968762822,-16827728.740410112,16204836.892225705,-14040836.139761142,10457334.958826508,-6019951.728902037,1845473.2387200352};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<14,double>(double* c)
 {
-initializer_list<double> lc={-10.2910491202,35.664993216,-68.7690593391,106.433249186,-146.143486192,185.39642504,-221.090120197,248.301799929,-257.919153498,234.545421863,-165.851313177,75.7307225154,-17.8050930492,2.80352091872,-37.8146707035,132.338523122,-259.733684784,412.461025995,-585.586404894,772.931726436,-961.633253189,1122.4622396,-1199.57644092,1121.31552041,-861.4533029,512.670772996,-226.530722086,58.6555525289,-127.533527568,449.176493725,-891.308807027,1436.18387126,-2072.3812891,2776.08252332,-3485.35745561,4067.17411304,-4307.61478053,3993.98336655,-3110.01615948,1957.86729941,-943.914202008,257.998792589,-419.31281058,1480.64665275,-2949.65192304,4771.86604845,-6900.28250086,9223.2510543,-11480.005349,13188.4334419,-13696.0362204,12495.2164278,-9710.66891203,6230.48028131,-3097.47691771,863.797656097,-1339.00310264,4725.6243428,-9399.29190847,15151.2885643,-21758.1474422,28749.9844067,-35191.143242,39587.7822849,-40213.997217,36047.9663581,-27821.6303942,17963.3276836,-9049.83293363,2547.27955264,-4106.28213009,14457.1806258,-28619.9664553,45782.1593799,-65007.3010966,84584.1318258,-101556.379216,111783.50441,-111149.978578,97965.4592768,-74967.7840375,48442.8287715,-24548.5740093,6941.17487665,-12028.9475136,42212.8729025,-83056.6348642,131630.981158,-184528.26899,236213.661496,-278208.662784,299959.283374,-292452.132585,253777.860221,-192484.901619,124147.105817,-63045.1576478,17863.0908914,-33665.5384543,117722.830993,-230120.73267,361194.394176,-499866.140966,629804.977509,-728450.831141,770630.830483,-738097.963772,631449.719276,-474738.47382,305173.151355,-154973.169074,43937.0781309,-90284.1418115,314589.040108,-610987.121513,949996.932245,-1298610.47557,1611975.99679,-1833540.94495,1906496.54386,-1796860.40748,1517307.74721,-1130930.26467,723914.839573,-367116.504438,104048.878818,-232926.029018,808835.157758,-1561190.24342,2405771.30399,-3250717.00326,3979700.03138,-4457719.66993,4562642.28605,-4237515.17983,3535076.87501,-2612497.24602,1664083.26423,-841917.241591,238373.801712,-580415.196637,2008916.80998,-3854831.32903,5890316.55587,-7873356.14628,9516041.49745,-10509107.7567,10601507.5773,-9712769.2198,8009922.57767,-5869055.98806,3717797.52462,-1874977.57673,530010.768419,-1402031.63101,4837652.74515,-9231319.35935,13994104.4745,-18516456.6363,22113159.7378,-24100582.7092,23985043.7755,-21693008.0735,17690698.9955,-12849109.2346,8088955.74959,-4063156.88353,1146049.14001,-3293466.23197,11330507.7553,-21507332.866,32359369.2865,-42408243.6774,50076780.3535,-53901167.3016,52955252.6505,-47301693.3035,38146289.414,-27451671.9793,17160329.5062,-8577522.61382,2412569.09162,-7543805.68648,25879784.9901,-48877225.8174,73012921.2398,-94815134.5262,110757923.302,-117797404.982,114289160.557,-100833420.854,80389078.3602,-57275559.9376,35512893.781,-17644227.8997,4945017.55156};
+initializer_list<double> lc={0.017415869979395631,0.040582822313529523,0.059769328628195639,0.080177249351340579,0.090521386110228319,0.10559955712650519,0.10379876562588527,0.11238552704245717,0.096819395169197702,0.099717577885208304,0.070272816361529266,0.070808722202950191,0.027800139389238002,0.031188938465933042,0.012366740765876152,0.058252534471389524,0.025090679667077991,0.1352647962135012,0.012163271897629055,0.20974902380675326,-0.028442500181795486,0.27487463712196214,-0.097923986721466277,0.32830435437290448,-0.19211506916476858,0.36047453585684708,-0.2568412572164247,0.1945647972787274,-0.10615537995401643,0.47252557066557879,-0.78610084536466518,1.4192278138102456,-1.8045695738816711,2.6062251802372559,-3.0383092432789622,3.9145657534789,-4.3559469296171443,5.1390706575763982,-5.373205250267967,5.4688286743923235,-4.3351221165009587,1.8653650311698004,-2.2299869444214288,7.8843219382943153,-15.256145752824714,24.216796975286171,-33.845614242699264,44.471604149519496,-54.918410836175661,65.463773316778226,-74.395510578311349,81.089363164318341,-82.250566932892774,74.488916948352645,-52.625647405727537,19.063459748097691,-31.296044676777759,109.14305034954594,-212.29737052659703,333.08833914282081,-464.80907504749368,601.90856807766957,-736.14139176867956,858.27656200704784,-952.89661397875751,999.18225903477272,-965.49173361589987,816.0390293635808,-532.39559184173626,178.93238916232491,-332.65636787777379,1157.1702365086299,-2245.0158409313072,3503.5387337689513,-4857.143285982303,6228.2188751374581,-7522.3492128029095,8619.1511761593884,-9355.2706160731485,9517.1324174833329,-8848.8858821338611,7136.4816414292808,-4431.4073144872734,1432.3758836170711,-2687.5036370346334,9333.0660509220919,-18054.308684602693,28047.054739869769,-38638.696513007107,49121.907953519954,-58663.557383472159,66233.60783584452,-70545.939353592319,70080.001578140294,-63314.034244745833,49438.244012338237,-29748.416641672574,9400.0202600181,-16534.053207055281,57336.77316110384,-110623.83515207014,171168.47170927888,-234508.15977666137,295945.04046029542,-350072.81413832415,390474.43550698265,-409651.35552438336,399554.80817575044,-353417.50888469042,269808.98637570824,-159017.71352458613,49538.478846125727,-77819.188489552112,269532.54639128661,-518861.06897002169,800127.70983224206,-1091122.271952558,1368575.1637255586,-1606282.4176419984,1774279.6806009271,-1839476.9952059099,1769301.6636416664,-1540841.7667719971,1157719.0781470842,-672767.89234639052,207637.41859584717,-281930.15310285253,975504.69715934693,-1874416.3510571,2882527.1784319914,-3916022.0927982048,4887655.21828655,-5701048.3985043385,6249426.7160881757,-6420324.8625238311,6111088.5504798188,-5261773.8431000494,3908874.3339945348,-2249422.8925340277,689863.65680430435,-791349.55838949446,2735963.3158074254,-5249430.0350436822,8055162.7231528896,-10910904.219041964,13566083.641217103,-15748276.977846458,17163279.457767786,-17512806.473119232,16541377.255421065,-14125918.360846943,10409997.620590913,-5950098.4391742702,1816921.8931513154,-1731324.8604294203,5982207.1956615453,-11465391.890427505,17564950.686242618,-23739964.973031484,29433952.710005358,-34049285.12082826,36952927.357262182,-37521460.382258368,35247245.858037227,-29927909.918953114,21933544.362881748,-12478982.727553589,3799493.6169917178,-2967133.3933316061,10248109.205886805,-19626772.488011874,30035138.661542347,-40533925.761745393,50160605.571132909,-57890241.578089504,62651511.357509092,-63410342.564874975,59354599.945649906,-50209853.746104204,36667341.453899957,-20800548.91050509,6321514.2112590713,-3998160.3074894489,13806070.948346986,-26430074.471278021,40421983.378130112,-54507267.159656973,67382768.026257829,-77667375.839887948,83928036.60565443,-84796854.560205744,79221366.549922782,-66882890.545252995,48751518.178150419,-27612846.868457762,8383728.0589082411};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<15,double>(double* c)
 {
-initializer_list<double> lc={-680785.069835,2387450.17514,-4652428.45103,7187728.24115,-9662262.49821,11746229.6406,13778989.9126,-13493401.4106,12352568.4346,-10484165.1035,8096991.68275,-5466034.88809,2920276.67638,-856461.606004,-13174694.7299,-1227189.81404,4275962.04942,-8258359.67922,12645634.4182,-16873430.5251,20397694.6972,23760656.7238,-23219070.4551,21223301.7647,-17992969.9449,13884876.3614,-9367986.91492,5003108.47036,-1467034.43283,-22785192.2129,-2208225.37578,7656535.01605,-14685770.1307,22331616.6407,-29622881.497,35649124.097,41291637.7298,-40280738.608,36771896.4805,-31146099.8433,24018851.5835,-16197714.5818,8648013.32397,-2535404.35929,-39690840.1363,-3974685.2227,13729577.6594,-26194161.2296,39615313.413,-52305888.7065,62720975.7324,72317181.4515,-70447471.5657,64244195.2514,-54373899.3333,41908228.948,-28250977.0903,15079536.9369,-4420399.85885,-69647526.1296,-7166881.09722,24684744.2018,-46901023.3458,70630869.0064,-92916342.6391,111100892.421,127630876.997,-124189133.786,113157710.656,-95712511.4822,73736092.4463,-49690862.0796,26518089.8214,-7772643.07564,-123109877.838,-12959106.1972,44535643.7203,-84347945.8028,126604525.893,-166073452.145,198129438.143,226942726.632,-220618328.877,200881957.479,-169824958.433,130782642.203,-88111599.6929,47013854.5755,-13778876.2615,-219176521.063,-23514726.8966,80673467.5731,-152414826.809,228184490.216,-298650369.871,355666306.844,406437746.753,-394812834.947,359287819.256,-303611009.0,233738977.67,-157441928.495,83994955.8184,-24615551.9313,-392922516.031,-42836394.8569,146769088.385,-276762234.482,413524854.971,-540279839.475,642528862.77,732871505.653,-711467346.772,647141950.449,-546662422.233,420746023.239,-283355339.18,151152293.65,-44294033.9333,-709076968.054,-78359535.112,268211540.267,-505028172.02,753427665.039,-983026768.826,1167777189.27,1329941657.38,-1290428395.17,1173285384.0,-990812476.593,762424670.031,-513384977.186,273832863.129,-80240723.7556,-1287619920.34,-143947470.71,492328971.348,-925987857.857,1379787775.9,-1798333189.53,2134429897.74,2427769119.74,-2354594152.29,2140105195.36,-1806796726.76,1390059429.39,-935889883.658,499152531.259,-146259878.073,-2351823761.77,-265535342.588,907646460.04,-1705646675.99,2539163463.24,-3306577034.2,3921745300.49,4455975702.53,-4319996367.94,3925274824.66,-3313179376.67,2548584064.21,-1715711120.93,915007828.738,-268103660.655,-4318648064.84,-491788906.001,1680251122.3,-3155382478.75,4693890412.1,-6108325053.72,7240432051.56,8219158540.24,-7965590141.11,7235798188.64,-6106237944.12,4696424393.49,-3161359944.0,1685901040.13,-493968256.597,-7969203024.07,-914272692.981,3122592944.78,-5860842341.56,8713298429.15,-11332471883.6,13425989716.0,15228342619.6,-14753905684.2,13398889445.4,-11305209229.4,8694018557.69,-5851883230.83,3120587431.93,-914313711.212,-14770820370.6,-1705673815.93,5823865068.47,-10926159840.9,16235912347.1,-21106124508.0,24994018456.0,28328109111.5,-27437638804.4,24912192125.3,-21016177887.2,16160415780.3,-10876848809.2,5800046117.47,-1699359011.83,-27486576328.6,-3192345609.94,10897420034.1,-20437305164.4,30356477409.3,-39445625982.2,46692922281.2,52884879792.8,-51208866819.0,46486140771.5,-39210900876.7,30148880966.3,-20291049287.5,10819963988.9,-3170132055.84,-51330459448.5};
+initializer_list<double> lc={0.015486945019316702,0.034796676478535532,0.054338809651008369,0.06857704435284857,0.084857911165302259,0.090781579538353767,0.097658434886699312,0.10361439156531233,0.087824692807549844,0.089370849434527099,0.062382425193733629,0.062449941239950765,0.024394853795125683,0.027319707761452138,0.10214947810004128,0.019398171481209958,0.021106758159532127,0.08121477340166233,0.025866557662563858,0.14564124338752674,0.0099444476713621547,-0.028655584146618223,0.25522373206350225,-0.09071841565465285,0.29619028945787574,-0.17268344204658574,0.32007777751296263,-0.22745460016283996,0.17135179024859848,0.20485980476354754,0.1136884298670826,-0.30861398119301711,0.72737525781394352,-0.99817238912478709,1.5972129718696222,-1.9097405107965584,-2.9716747857166948,3.7306030548649964,-4.084493655118042,4.7473700577469453,-4.9167515977816904,4.9601624107432908,-3.909078257754968,1.6731593906379218,2.6248503122367415,1.8858090025309388,-6.497784951233961,12.828134128011305,-20.106470536916771,28.543244200649352,-37.289186546935054,-55.931305723869635,65.055898307678247,-72.593584468548114,77.982314084153992,-78.214213094799709,70.177221412254331,-49.219018821264052,17.735055340010736,46.781678802598311,27.909837751775459,-97.25965986386252,189.81555112528522,-298.461811011544,418.82630928829964,-545.68946396082327,-797.94075257625041,907.35342546814668,-988.16339257682018,1020.4016303234035,-973.84943115456766,814.7390693567742,-527.27099922822829,176.2662882115434,674.53791276056401,324.05935336712378,-1128.627698032414,2195.6089852140416,-3440.1590185317921,4798.4638961180861,-6206.2769688467552,-8861.1800300417945,9894.4897524921821,-10524.767899238272,10533.929748636348,-9664.0140268864273,7708.3974193449029,-4745.6883429227996,1525.7151178921926,7591.3526357618394,20375.337417855398,-70785.112071501388,137038.62879175859,-213177.77168512282,294358.79679732975,-375652.01066428145,-515294.50224917274,559135.10131245941,-573806.9544449536,549618.90771512934,-478886.93405004538,361128.69378081076,-210876.32621249565,65329.665801608077,451495.9797606217,110499.91685719672,-383466.71031418505,740898.90163671435,-1149091.6845652039,1580150.3509715743,-2005654.8359702398,-2708763.5688050102,2908201.8284894698,-2946765.3513676379,2781148.1958251939,-2384093.3268498706,1768448.0348981322,-1017870.0204248733,312365.40866441263,2393994.461551374,467718.68021513948,-1621617.8909792205,3127815.3191606584,-4838766.0585504516,6630914.825912606,-8378630.0123797223,-11172933.715590957,11894393.98583663,-11932764.331531717,11135847.146505679,-9431327.0339640409,6913219.366147357,-3939018.8359291129,1200990.9636305231,9944159.2885923027,1553616.4240463395,-5382402.4586845586,10367191.034122271,-16004841.04957766,21870747.703200944,-27534583.834953985,-36347405.677109683,38439005.76290118,-38268877.186458937,35410431.812862375,-29723410.733395523,21600808.856902086,-12219714.08312804,3708881.5878121552,32530553.626947123,4072208.7962097492,-14099364.350125661,27127108.088039065,-41810079.632930338,57007183.934234924,-71565967.151001563,-93735971.315638787,98631965.859544648,-97632445.696918629,89772380.809388084,-74865172.658110158,54071624.045683327,-30433707.008120724,9207838.9248474163,84252399.217107513,8464554.5362497132,-29293847.360202583,56314485.980201236,-86689203.997206585,118003781.81444026,-147827416.58784548,-192513147.62006282,201828541.25395291,-198958084.5690587,182121195.78260519,-151183260.95006083,108723885.48702776,-60980235.92929554,18409745.943344201,173579008.14001456,14009987.276797203,-48470293.576009025,93126672.844081681,-143237582.58147402,194760678.44923514,-243635138.28806265,-316060616.96001313,330547395.09132387,-324954786.49211986,296579119.64078361,-245461539.83312329,176033542.03877014,-98510263.867413795,29698612.036780313,285574216.1890805,18520473.012520648,-64064297.781341893,123049458.59564266,-189175054.4688124,257064090.46703776,-321322125.06654516,-415966587.03881903,434457864.66561746,-426475689.58978779,388618068.62555995,-321121911.50163298,229952248.13831405,-128530065.86147034,38720400.604571703,376273129.19314164,2918.9573906814646,-10153.077467607399,19701.177037271057,-30752.674102194264,42666.570006912899,-54794.584702610356,-76571.627160170909,84175.886548547864,-87781.443842212469,85712.413466722978,-76339.908625130193,58915.659559948712,-35135.703600137978,11041.835378266368,66397.919514665229};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<16,double>(double* c)
 {
-initializer_list<double> lc={135465586.136,-460681378.644,858568449.226,1629807732.71,-1913730754.59,2091186142.27,-2150058053.61,2091021969.56,-1925588535.54,1673523948.54,-1360201074.65,1014354364.81,349584899.424,-1265147722.21,-666637158.937,-101468413.497,213698102.776,-726651643.726,1354004975.98,2568840128.65,-3015293660.71,3293664297.33,-3385101998.96,3290932468.68,-3029510421.08,2632110049.83,-2138732812.72,1594575370.89,549388050.833,-1994694419.56,-1047777239.12,-159451248.582,346179119.633,-1177001850.17,2192730225.57,4157572485.56,-4878309665.8,5326537343.82,-5472175222.8,5317822030.7,-4893552448.91,4250190222.01,-3452493356.39,2573448851.37,886360944.216,-3229410478.52,-1690664736.38,-257233463.555,574550352.097,-1953229206.57,3638078528.92,6893730525.02,-8085638146.94,8824877076.88,-9062308063.2,8803021269.0,-8097519092.6,7030431561.11,-5709164909.31,4254460693.46,1464852581.12,-5356578874.15,-2794477718.41,-425086576.175,974350531.965,-3311986937.89,6167614970.62,11679485068.5,-13693417224.1,14939026732.0,-15334326360.2,14889281087.6,-13690544057.0,11882113518.7,-9646011752.45,7186322406.6,2473474106.6,-9078385000.87,-4719274302.8,-717722787.111,1683639220.15,-5722307309.11,10653943645.7,20162445976.2,-23629833119.6,25768448096.7,-26438923570.2,25660761394.1,-23585423854.6,20462556200.1,-16606478192.3,12368681886.0,4255741468.72,-15677567270.4,-8120902095.74,-1234782475.7,2956394630.17,-10046957023.2,18701931974.2,35371373580.1,-41438339848.2,45170081507.7,-46325822386.9,44943720659.9,-41292704800.6,35812554647.1,-29054849881.1,21634813844.8,7441461458.94,-27512784554.1,-14201937753.4,-2158936055.13,5262505960.88,-17882015706.9,33280060395.4,62905859082.3,-73668167129.7,80270297293.6,-82290439773.9,79803248558.8,-73292537064.8,63543572743.4,-51537593411.5,38366318949.2,13192044135.2,-48945867638.0,-25180265967.9,-3827020425.89,9475650364.31,-32194867184.9,59906431484.4,1.13170276042e+11,-1.324847178e+11,1.44302499394e+11,-1.47875817261e+11,1.43350721831e+11,-1.31607205015e+11,1.14063450821e+11,-92485254952.7,68832490356.0,23660117017.3,-88083374859.5,-45167088141.0,-6863312096.04,17227359025.1,-58526448357.6,1.08883438463e+11,2.05581338088e+11,-2.40584938695e+11,2.6194890402e+11,-2.68333992994e+11,2.60025938266e+11,-2.38640001381e+11,2.06761920804e+11,-1.67600285204e+11,1.24708077425e+11,42853318005.6,-1.60057445932e+11,-81817195768.2,-12429985765.3,31576068889.6,-1.07262890124e+11,1.99519643417e+11,3.76514298828e+11,-4.40478056515e+11,4.79423779431e+11,-4.90932241172e+11,4.75562479272e+11,-4.36302030665e+11,3.7790326443e+11,-3.06244199182e+11,2.27819298486e+11,78262193238.1,-2.93223157785e+11,-1.49439347908e+11,-22699102641.7,58274418286.6,-1.97938096312e+11,3.68125245178e+11,6.94346133517e+11,-8.12051159771e+11,8.83553153296e+11,-9.04449702225e+11,8.75834658132e+11,-8.03269018581e+11,6.95546285962e+11,-5.63509250312e+11,4.19112300517e+11,1.43935745018e+11,-5.40893277128e+11,-2.74873153282e+11,-41744282295.3,1.08174897022e+11,-3.67400605899e+11,6.83186806881e+11,1.2879961745e+12,-1.50588800347e+12,1.63795687159e+12,-1.67614079973e+12,1.62258031464e+12,-1.48768237169e+12,1.28781100997e+12,-1.04308452492e+12,7.75638475396e+11,2.66304976097e+11,-1.00360632572e+12,-5.08617894322e+11,-77229000359.7,2.01805253626e+11,-6.85345516814e+11,1.27422371708e+12,2.40118080284e+12,-2.80659308193e+12,3.05179823945e+12,-3.12195241811e+12,3.02124483788e+12,-2.76924006275e+12,2.39653853871e+12,-1.94065559347e+12,1.44278749072e+12,4.95231982313e+11,-1.8714653513e+12,-9.45949168472e+11,-1.43609669766e+11,3.78085907103e+11,-1.28390527786e+12,2.3867584707e+12,4.49573191723e+12,-5.25335570894e+12,5.71064800265e+12,-5.84014964178e+12,5.65006034048e+12,-5.17730348572e+12,4.47933981801e+12,-3.62642590597e+12,2.69556698933e+12,9.25011744461e+11,-3.50477943849e+12,-1.76706004393e+12,-2.68223687272e+11,7.10965349508e+11,-2.41411433735e+12,4.487199128e+12,8.44866336634e+12,-9.86986304382e+12,1.07259835049e+13,-1.09660216164e+13,1.06060289636e+13,-9.71592200995e+12,8.40398658134e+12,-6.80228297275e+12,5.05529595199e+12,1.73435763137e+12,-6.58790428097e+12,-3.31349220654e+12,-5.02880009315e+11};
+initializer_list<double> lc={0.013490220977761555,0.031427962995182457,0.046987373307942946,0.073454785753304309,0.086369391825408389,0.089017807128512724,0.097547712665373191,0.091314308198872987,0.095360766200494941,0.079794174999662788,0.080415539835133883,0.055698115376445689,0.021575626589518488,0.063256440007725926,0.055462298734107996,0.024127007908726763,0.01041555203131189,0.042191143862243185,0.025852596906614714,0.025625478750121942,0.15000231780457759,0.0081362899844680002,0.1970554386586907,-0.028181037033049369,0.23622584604601362,-0.083826007745345894,0.26796033439269343,-0.15576533378501753,-0.20269562177220662,0.096852982834280028,0.2858568057975831,0.15200570173040492,-0.065371337699944871,0.30729403654007615,-0.49398596849546479,-1.1447035774516518,1.7004356496189886,-1.9510871299200321,2.5880472092932614,-2.8668998639999477,3.5278677544560339,-3.8137396573664369,4.3801099544994433,-4.5016959760838047,-3.5363936854026108,0.92144025645784216,4.5087993697045811,1.5070673646557512,-24.665730114623793,86.181704502788807,-168.23620489984518,-373.44138281649337,489.30469265120497,-608.67109456997826,727.72751405520249,-839.69425119789392,936.61637746260179,-1004.6660333126269,1024.77872737831,-968.23713882791554,-516.43315997272681,265.43454754787262,803.30398691459014,171.88850707733163,-309.63452662307531,1079.6880054137171,-2104.3441208577101,-4633.9170924328732,6031.8690048096953,-7443.9553818834898,8801.8258075181981,-10014.896373026275,10962.067613926593,-11475.761417636714,11336.492449464019,-10287.720524016873,-4971.5251199964334,3307.61998012852,8132.1818152113867,1591.2808716124862,-3066.7759919124081,10680.833581987628,-20774.135140078229,-45397.117890866797,58741.054038280654,-71934.534364037242,84207.884399190553,-94594.349683136734,101861.41586747993,-104461.23838342193,100594.62295246545,-88560.732426851124,-40077.763772685426,32547.292179348288,67696.037478759118,12538.866353702892,-23920.392636591216,83219.287546696644,-161542.3551289634,-350530.17157942164,451117.35821855218,-548605.0101822387,636549.82952517924,-707170.54860588571,751082.30712232876,-757420.76362116615,714978.66414632104,-615381.71381848462,-266254.13914039112,252341.27967287829,459424.64838554417,82113.1725893873,-147059.62881656293,511128.80957238415,-990428.37429365846,-2135658.3188244546,2735451.4104567626,-3306480.6315605491,3807537.0587725268,-4190601.330681176,4400647.2203399653,-4378475.0749985547,4069719.9562441898,-3444219.9970198724,-1443884.3105870039,1543025.3383579399,2528237.221096686,441062.19944763254,-714824.61580946109,2482394.0088284066,-4802777.0085223128,-10300048.088969859,13139133.181250371,-15800508.2738136,18079680.22319379,-19745839.605991689,20546204.287286053,-20226136.753077801,18577012.422492657,-15524325.9116466,-6362337.6416042789,7465221.8691241569,11256439.08047108,1930714.4675908633,-2759131.0767545689,9574870.5587513907,-18500598.437440491,-39495096.192345493,50210302.785194374,-60124074.431184468,68439615.269606499,-74282043.894931583,76729869.728376633,-74907361.652866218,68173169.434299237,-56432508.536537806,-22749874.026160506,28700643.073036872,40550722.79519485,6871496.3327696682,-8497625.1698164154,29471487.472188908,-56883564.389216165,-120980602.25985999,153378479.91753795,-183032340.66095416,207480804.49332597,-224082861.3697767,230146369.06987855,-223238582.18016037,201761599.61548613,-165834362.29683653,-66054237.636070315,88104843.516236103,118375850.28502589,19884743.401949277,-20980096.699446718,72729170.665550313,-140256257.94284335,-297416905.26270363,376245864.36473813,-447785903.96945253,505961986.24057463,-544375304.91932492,556673364.65159019,-537351897.842331,483146167.34114826,-395046860.85388826,-155990013.222194,216963769.78904358,280636140.20976893,46846779.327472578,-66936838.272294259,231904548.17118511,-446739494.8590806,-943803948.07864682,1190720384.5043602,-1412409571.545931,1589556758.0546959,-1702294261.6960784,1731560161.9854741,-1661742878.8609326,1484943191.7791878,-1206750740.6608406,-471731994.7301487,689968300.480172,852471948.26255125,141284437.43861402,-1.5480232105908971,5.4884637447379291,-10.634852178616991,-23.818155915043685,31.570923346958543,-39.412091345379405,47.834282850816711,-55.825365216359798,63.719574494815811,-70.088276741906983,74.420399978901484,-73.964551544508786,-45.91598518238771,16.961483026057248,65.861570972119204,16.472900716209823,-41697253.501795688,144495997.52220039,-278477997.81898119,-589213471.49098321,744177939.29151353,-883917523.43546841,996378571.2982259,-1069042083.0901887,1089727989.4562091,-1048225183.0715211,938995415.88409277,-764936807.69175548,-300210159.3152387,430373303.06387722,541561630.93257211,90009633.900057011,-87011219.20179135,301412944.83695296,-580500275.59404906,-1225378680.9354162,1545031076.0615788,-1831337459.1664355,2059221161.6030553,-2203025012.3854488,2238322462.1098087,-2145370224.2102286,1914587738.2465132,-1553877495.3559386,-606142008.15918469,896238209.85156128,1096391674.3074445,181437109.98627851};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<2,long double>(long double* c)
 {
-initializer_list<double> lc={-1.44337567297406441127287195125489,2.65470053837925152901829756100391,-1.76853598869462141624860782523333,2.50218995346906875953341290652353};
+initializer_list<long double> lc={0.383974596215561353236276829247064L,0.827350269189625764509148780501957L,-0.327350269189625764509148780501957L,2.11602540378443864676372317075294L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<3,long double>(long double* c)
 {
-initializer_list<double> lc={1.00000000000000000000000000000000,-3.32379000772445013110755923986944,3.43649167310370844258963269989120,1.64959666924148337703585307995648,-4.78568501158667519666133885980416,3.75514084041407928684859596988032,2.94601792213815217620118779490752,-7.74471701776623530154738625169971,5.25791292600037724175496741484224};
+initializer_list<long double> lc={0.3135083268962915574103673001088L,0.32379000772445013110755923986944L,0.47540333075851662296414692004352L,0.7658770817240728893525918250272L,-1.0L,1.7341229182759271106474081749728L,2.02459666924148337703585307995648L,-4.32379000772445013110755923986944L,4.1864916731037084425896326998912L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<4,long double>(long double* c)
 {
-initializer_list<double> lc={-0.135307244904688787411431296975496,1.36140068465488733668292376422488,-3.97544968197561526882229403937933,3.81878808642839043193882832768355,-0.537612925375784480135853564851234,3.00404135671062937217916717984556,-6.49890590866445442087731334533293,4.60431971202729624837725199101190,-1.63717031842245700354336803004939,6.84757575688715536726519348367821,-11.9249796863829679117446327133569,7.12227177834886743621767783385215,-4.10029878721799225771340611081784,14.7751596370192998341951206152680,-22.3365646864978729902361776703725,11.9887073780806096349127195892873};
+initializer_list<long double> lc={0.159892794073637228090617425888332L,0.374674514663846731868011351377353L,0.232688667054930488599161734490442L,0.302175868410559263830236243797468L,-0.0981369521237187250746790847265873L,1.21741991222990113859126829716369L,-1.1260403811348733650158386433397L,1.33676689923626281909791655135098L,-1.55565026488701110211295924295864L,5.71217729471743842988351609051272L,-7.41147600710121205438621911534272L,4.92493949906321285901699514734027L,-4.38831278199312432869791369097048L,14.1487957198752823053772658644786L,-18.3640780828828053767717123213524L,10.5341633007976736877043333922907L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<5,long double>(long double* c)
 {
-initializer_list<double> lc={-12.4080892450490375587308213492748,33.2494963343543122595047165192804,-38.2237939376551451088552478458438,-5.02873063465664557784727417127220,23.4580275600371839895298134079607,-22.9802116869279084515788861808107,61.1304952922655617531320397240784,-69.7821321606709158906772005941420,-11.6080506013676378348468198236619,43.7879095113950800304828916374698,-42.1725807054847527822486163824507,111.473716235233254622573504718593,-126.392162976933262911255515008908,-22.5124628922089691017572401806333,79.9859687144913883505789216338612,-77.0853906901439939750903731632864,202.751332845047950535923907231318,-228.757413485767381207785815917637,-42.1641229898811247987888566088867,145.555909669596589986031494575773,-140.652179469191843700916683271813,368.574355005736335933984903522633,-414.483182984262126760100116786341,-78.0638446566238302686280263411386,264.876374636341610152333990318813};
+initializer_list<long double> lc={0.124984887325764879791716808228345L,0.216580774495367882514018469045931L,0.328885883699785175599832291421144L,0.207446198422454702972579470100839L,0.169012333087295362723039522054045L,0.27364333488551201297462434967939L,-0.28734111168816228481888049934364L,1.24566054607467744444552207931108L,1.0277335938790646483954947659472L,-1.02893101820393336651491790594414L,1.56237067825494720652750133746419L,-4.51309119237387594289773042622781L,8.36L,5.0057166388272555918116543706688L,-8.91499612470832685544142528190518L,13.8905813574664280271701244700988L,-43.57602600468803450612421690235L,69.5731946823604931812678375919962L,31.0329231461764777139580835961047L,-68.9675832583460324198730153167L,6.38350735715601986824918022543229L,-19.9290965376849493636277860342555L,32.9589255545317108653534747039383L,16.0864652028641404844742082202245L,-33.7305669218140803089309199049894L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<6,long double>(long double* c)
 {
-initializer_list<double> lc={1.49639906743931150170865743165221,-4.95180935208180235143946990968911,8.16737188579422643880960262595151,-7.44012682160895177207402084354309,1.31773061430654815259391059778265,2.44419984904909201649516932059883,3.46885805124527998912589880976624,-10.9780747982168482045249387497191,16.5595161235581040943189567698421,-13.6754887605368487943822582992659,2.90311311209734720820431537689784,2.25641156056538447906452159834394,7.11511835867093589005360090792946,-21.6456349345666900729344518014013,30.2555924942497912188853069793345,-22.3416240113366871629470601435484,3.47355841317324175691484021542290,3.51124117949273710338609959959303,13.5351598873204907206130851821985,-39.6617231803398217698073670078747,51.4704918804032815556367028451887,-33.0427203786641164534802601768582,0.857972597257570309916028931380322,7.12633339478597956084901084518200,24.2342876134922468623845858854074,-68.2986361470160227079104024397649,81.5084716482095788888727615984547,-42.1205642015401486742305911687352,-11.0450057011243979267195579430256,15.9575705136612307359928024704931,40.9593172785713586917120193028690,-110.308373491478239521311464963708,117.679699400637902139903279302536,-37.7198023312642406115052298157596,-46.7864069848232444708783542820675,36.3789798788849947653870930332267};
+initializer_list<long double> lc={0.0822483019342037478640112458349425L,0.192309904821298604543208747188376L,0.210554380476386103025834845934132L,0.271315698858067900195218043827608L,0.126633394876812956032087920660984L,0.15070356193165467443348841930696L,-0.00671995946741446690553523016777649L,0.498579604213998644188492929620954L,-0.369706217859037836157219308026768L,1.12786426978808409425013006359106L,-0.882246519134849659252781580185743L,0.801624129226086967046213327658322L,-1.03153977944528120121194957228532L,3.95621300880984079146362077177153L,-6.63540102624644024084122320220463L,9.58816473131380705659467460928339L,-9.22157777692638581833679062780602L,4.7248312494528609580164171604007L,-6.87737725795577645888460239040821L,23.3355903068663527123979225505998L,-40.4858388569101878358689407951435L,52.3851592934271722434960557651374L,-47.1554645532578469382521471476813L,20.4172406608718847314269628783362L,-23.6007257230995560341432254647794L,78.0836961598728659040527803392158L,-133.74887763279709893520318574734L,165.533650561102549834704773966216L,-141.796470948653553437512943967553L,57.3593322768079249249325006717506L,-45.9544790770732901399592209924769L,150.714998983444320857559458605839L,-255.681093303515005597962807557601L,310.127921134891541506210122233301L,-259.206997755970609654747008740979L,101.965884775324619042805607229164L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<7,long double>(long double* c)
 {
-initializer_list<double> lc={-1.91120187840706148059343153339619,6.65652759190947097926182607655844,-12.7292168648694984662764731379728,18.1176202649195974587105791611953,-17.4616733790926634353730548203877,7.96098671627692504368896267036905,0.392403593091850638318496741609958,-5.19865835727433058441028937337961,17.7863259875997465506681553498387,-32.5093393347882978136644467302933,42.6183498714162914750919707447822,-37.9642372564774438754821752867909,18.1682283161856404297400910069268,-2.37489943225972140043994937826719,-12.6924582123093563087501515401057,42.5222463481699544055616587560432,-74.5182862339952554415153487918320,91.7241851083633573607985030566396,-76.7869482599494432441820403305810,36.4779223930853985430329998272872,-6.36722877294198861104454960548662,-28.8016213917061138053390452891089,94.5845579492985955875880487692287,-159.757941566257764882047123910280,186.855037156516665445560863605916,-148.584647226412484336661254556154,69.0276582947818295702864174410238,-13.0466093395153273856608853441942,-61.8496467489083919740734662853765,199.450073684103533001519499240391,-326.127694831069676842085164319705,365.115860088233912284775986636401,-277.225297295451381351587775194686,124.642877080461840288276012062188,-23.7793975571716263282331655745455,-127.150589513851883135544067747503,403.254742674680672031828264052813,-640.329586138398034934086416724497,688.994905272083876945019711555962,-500.006854822796777795114554277379,214.902196977754856228751627384792,-39.4710270061112237052768425440148,-252.155218350409524792213670733784,787.350624132017907905283699702557,-1216.36742044747276254645881198231,1259.72396109181852482064404550487,-871.096011390937797024743593539612,351.306654629544856924200356477215,-58.5922594641566066942375759823070};
+initializer_list<long double> lc={0.0666941570670827713439092105721217L,0.133026104281449192119153532931236L,0.204321049047571264328074092061288L,0.187583325708632645454617630027284L,0.221771429746878631879602688086839L,0.0978142523349984038694191467344323L,0.114235725642007828742128857562873L,0.122255582983458971096277902111763L,-0.0596440230763933962256297717242892L,0.57557668748088991903493627722265L,-0.382767798045335228852325508454256L,0.979623501559757103484803679888213L,-0.742790457876754777396541244032452L,0.636980914174680188926546278347977L,0.902442769456690777979428126594611L,-2.73090535314020903992319813044725L,5.58566559580760197126712493589281L,-7.69735820509003688761017135728487L,9.80492620365926515136843108806834L,-8.8625743442493378483306441437087L,4.29488075786732729179572627484657L,6.91104800167136304651529782662225L,-23.051500805521308509338545272741L,42.7484578291160140261474066211744L,-59.6008163265306122448979591836735L,67.9650125186855095452261476703623L,-56.6086495674898475246107436294708L,23.1364483500688816609583959677263L,32.6246062177656405616505688788183L,-109.160236853702628102338742896557L,197.184015996831640048367008316313L,-268.437492944487463845600492340811L,290.830866969625006083712568042759L,-228.13377703228372669399529263652L,86.7949402219402305316576858420361L,93.3920663162279611201666798258359L,-311.251185229950413395946692935694L,554.812735056393062673464927642274L,-741.883448865479331408031983539673L,781.149921949739998605056516745202L,-592.097891179276989889090017314621L,217.748567545145409514312501963317L,165.991614088224867389763625101456L,-551.679304456696705146242442646912L,976.900347040245253630701804612144L,-1293.82218270255936951397816921661L,1343.28977367020233698050332810648L,-1001.48081848962930878237505519532L,362.775124806384304703890004080795L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<8,long double>(long double* c)
 {
-initializer_list<double> lc={1.89420696335189271657828654653861,-6.74595407993036488209951062870800,13.6174313879350418040936549908116,-22.1325531490283795436868444953001,30.1354696018019658502034889756472,-30.0535602846122435940536115165028,16.7813564646508372455003455249718,-2.47654183241751771237758983174295,5.53044980216853652419590406662562,-19.7123802550751263836487899296228,39.4552306841891380568621187216173,-61.8202807478371281601911743699649,77.9162549778229211076493331916534,-71.9170865716099859533199335243895,40.5605506613702209443694904285352,-9.49268636734022096857912912214024,15.3636588680378007070923695084634,-54.1230023330262407141346911644396,105.511418085609196011982509718827,-157.829742274905696136850531422093,186.583239525287085530367282552769,-162.508358369306670570515474868443,90.6500150975412720744334356732129,-23.2936433611634987137940144645674,40.0312626350487827169113069068526,-138.963091717749303955679340327395,263.310898325098970109714813246196,-377.485157225711351710788662668533,423.961919653899505365296310308562,-353.320799779991340818918670597229,194.472041372165191939031491810626,-51.7366189890014269411866892230046,98.3082610019279501589859959267112,-336.410045088019414880440286648268,621.002616500503204411870861288617,-858.383104949994456155016957800032,925.006181742545133267956989671112,-744.496924143510302187173151808743,404.381959444669130815027763903453,-109.188285177905293839097960112073,229.685256060390168995854989551005,-775.805079807910415691813090436842,1399.49183211132587677399424419371,-1875.32610048063117680663992102973,1953.09767698607603208624092346102,-1527.59865050750421049019808417344,819.073480823665014023919769799621,-222.430881404536315490773459538561,515.019542667772258585894866718456,-1719.44701491993249769633859315472,3039.71234666054242403153643714144,-3966.04428445512004427301545883963,4012.90466143223379746541841606209,-3062.61683487494962501114632454293,1621.13250704375359254959145124682,-440.496988744971312113260400252528,1116.20019081785447632171833140071,-3688.02824601219497787439701475620,6404.57927458974619584256433769973,-8163.93419172268862194770757436753,8055.10446748427746148256560561915,-6014.38469250793627714333948880182,3141.79531687395626580896621586568,-851.185828494625477369134849091671};
+initializer_list<long double> lc={0.0494207617175157450662821794059841L,0.115367280951846865973619559095434L,0.148648061741885622933949325222643L,0.194426258901040081949697717352849L,0.162540550333118309045579318597765L,0.182394745345221171697844797346678L,0.0775731089210792138605632936889406L,0.0894843038395248736306833750049687L,0.0133004602295002209836059857102722L,0.241099905954761498952193057357823L,-0.0955980746459190567602634261592027L,0.575833245906589516017864665716787L,-0.364030939353435068664516423449447L,0.840008489792393842932632195776659L,-0.624504472689445489937647901693388L,0.515558146098741166680354878502581L,-0.571824831805646876189652922077652L,2.26093413974762933824505212164426L,-3.95234578917624848198416518678382L,6.4150624999720129857832757936198L,-7.99422526399134411414861226407445L,9.44988267006503080265465244318995L,-8.20280112879965504166625958456845L,3.83255149903005689439684007445576L,-6.20557206022371833464280400619149L,21.5389478160572560079380621852183L,-40.1210656884172563811378052476617L,59.5490753984660055149888835364038L,-74.0694933841932031215479899585967L,78.3013654646399718864485030551367L,-61.9905672855968378391324077340713L,24.4055924180199573646158200985823L,-38.6725198664048985799450044539732L,131.796089863342728442676500277041L,-243.92271853085913675873005420556L,351.703829863416678076909944088737L,-423.99988655232322230823237973981L,423.738784702463271645362014574523L,-313.911155855851891746315256458186L,114.859293697464296130743973988409L,-151.107285134212312658219890795944L,511.382350437124638691434017885853L,-937.665068876242408873685979591814L,1328.48681917056250449026841038754L,-1563.78054884556256563734486973709L,1510.3415699295881827412751857137L,-1075.24451387378698442654853196957L,379.349443397487110165730527631911L,-381.189011963633817787516916363839L,1284.94479207985694515079044545118L,-2340.40982717059334724152183060799L,3279.68733576475500439400589374915L,-3802.15771375225806404212970977914L,3598.71227370898887661785323282287L,-2504.7583779575766340980562363892L,867.068862529167850376370898085201L,-633.328922184053121418814107906008L,2130.52872846507185335525420437418L,-3866.49639588755288673490153911322L,5387.14720201253799015905704051176L,-6195.96805297663897259870957278124L,5805.06862540352266027914160721937L,-3996.00048420798839431317608869949L,1371.02944430334963938799023682893L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<9,long double>(long double* c)
 {
-initializer_list<double> lc={-1122.37853337868513288907107645526,3472.68754317920871035372398717132,-5504.45857587937396403055263349257,6520.15683125366459336103590739386,-6431.97481547377991062193825459155,-3953.50621672641479866707490786092,2206.96334711661149238613812925524,-660.403803910164190253513614032616,5473.93014369917938731633467451105,-1914.77786609897348069500567461242,5932.53450524017251620404172908804,-9428.91945106486055957473113593322,11216.0748505927621176994465520385,-11125.8798997027027580283018141203,-6912.00810877488854135449086463154,3871.70671922256012031694091415844,-1162.48089933961936452638348509672,9524.26619652708966338037876921974,-3274.83030100604689645901078300630,10163.8796248716098095955460530782,-16207.6950809326522794995892264033,19376.3029152507964379268457398588,-19340.6549967110950566737508912756,-12151.0136568717757634013558720536,6829.03899733875340451801297164452,-2055.08098274567793790800281634289,16660.4029888071800668455178466705,-5619.52492913534138380828473772158,17477.6969539292316746784233927286,-27980.8781111812526736951798623411,33643.7420889839618624080658745483,-33812.4379163001052065040276913372,-21491.7442429287831075796020230558,12118.7108868263514132987279902107,-3654.13234967576392736454480958414,29318.8339235766620363214791343809,-9683.02778741722783449462849303891,30191.0984813395516843831379764801,-48555.8620492776077813494786993552,58758.7621201311605941361365818662,-59488.5400631806917893939626024530,-38262.8625850438147421862613112536,21645.7195289864625526298524574780,-6538.68878769950693201587119162956,51933.6175770610834731735549177893,-16768.2775095437257779376737642712,52433.0530607269595290529903076262,-84762.9436219882766539763101371846,103294.652424145919875800996872518,-105386.284585534603977922480209642,-68592.1313721299725292170536960241,38924.8891361274873612267835585634,-11778.2331294643809532057729952861,92635.4588314248338888971540701060,-29207.2223989125978328169323534163,91624.2219838624851900101931442980,-148960.586247857636814125942941953,182886.590426046587476998603317927,-188071.357300443331412811009728509,-123838.091089782143371756533222059,70484.0237189235988262950232282445,-21360.8747190655853896722477930341,166443.455185077615785348597621765,-51210.2317156049329952437533915722,161218.510225010765418006721443706,-263703.274242517254966817271494801,326284.408454062978778420779941379,-338210.338806811977476895279565946,-225193.491246412638640223756123770,128522.371261141512706899001074278,-39004.8633662451587451551833800248,301297.051273118691583011497017185,-90447.2628019009693795394503462075,285824.206502260230485150510192373,-470505.856564211773755570665568190,586777.442858425078030572164964192,-612990.305674500963362393216828098,-412443.878277218098880475480310091,235971.359584509805484130827900914,-71703.7225379283423225298559933560,549518.144993898378325377833743447};
+initializer_list<long double> lc={0.0414068725961940418977022334725992L,0.0876298034327607691445660090472399L,0.135599045836636980821369854908785L,0.147737696469473441067600578649622L,0.177208209854374028090195968549307L,0.151629612069384751671303407993461L,0.0629047921009338959971917270770212L,0.0719457034288291587983778657912149L,0.139858144457599887593904253058913L,0.0657469225366681122749231248978647L,0.00272177207728483880435452546587195L,0.301250776273773205320057762299746L,-0.112951698125881429178787456825705L,0.542623289766644089940218703526602L,0.719474151774272601543012207157547L,-0.527810514834009735434905213007331L,0.424386592881400126299513042565746L,-0.333456846013469706718101590115209L,0.504176006643672669760898025958115L,-1.51803024912599045732658860967701L,3.23444492137949927681905766309094L,-4.63861105992505250595001420340566L,6.67820071427887503809252463948041L,8.82250267495965461544898192762845L,-7.44711526105979837340125561028185L,3.39254485184471454178014469787727L,-7.83479831534587000387809955034141L,5.51119121015221085233815919499234L,-18.7761926793795493994521379837954L,36.1085788758918756879071847487042L,-54.3100713005696472202770259288207L,71.7993576358772365004796979146564L,83.8132191920479335036123878274075L,-64.0679658754845716479522262118007L,24.5826162476641106130964029305774L,-83.3228600179015033542717114992427L,41.8366135756117530174093702556151L,-143.25275521542197457795150097048L,270.540585101905278353335810582941L,-402.052503401779899007849799923814L,515.059319727891156462585034013605L,546.011615794026021844942281836267L,-388.893838698472824132234411799613L,138.570974928866082284038246504165L,-576.320011812625594244275030498686L,703.550432522627167011790540312034L,-2393.52785154429093268133239906925L,4447.53327999300490461149021846277L,-6458.47104349338727955521237541072L,7985.07865895095429574812156276198L,7584.5848492545450759894905757002L,-5041.2368829696733655278516514054L,1694.45802133408465425430233959512L,-8520.16277833151422465214445992705L,1606.24241406720601063833383042146L,-5452.36025990267772941557197870607L,10087.4653470903709309582578849723L,-14552.3784198922591889863763606443L,17825.4620969559243658997882965676L,16483.9972799581672454004436015498L,-10792.1633188194802058154268607724L,3586.00863226574080369464362970746L,-18790.3557561693289144769423282019L,2529.88520119852561617047479183156L,-8577.13955457426203898457268236726L,15831.7225105943724339780763871462L,-22758.6941843095785640343284808652L,27740.8246264727419111166489387392L,25302.1341652567415038819554771038L,-16441.3173125137232162372859296956L,5432.69063664897997976941895459109L,-29058.1220086540438126154696683823L,209.731325101455852941195396758395L,-715.794250598645491241086174801644L,1338.87475359563885428877534809606L,-1963.66131886239691851351880868303L,2463.30443677184985542550664370137L,2443.886597723746111598911666806L,-1667.13635818971235909137269651973L,572.09693024718533639941968567564L,-2679.63998907741933734331179202575L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<10,long double>(long double* c)
 {
-initializer_list<double> lc={0.308663498961631026031881865242030,-1.29519460573904943059833301204681,3.36383134544788852438529409244359,-7.46704170044427746933960115448499,15.1437435756946248189634635449127,-28.1149391887591556339007816076186,44.7273120243530286916403110123634,-51.5468873805166148961187150677284,34.8175242682022478269417410442943,-8.92396510145890931804424272341933,-1.52106932316001656932644627222569,4.14309699845371759042237492965208,-3.67385821192568772370895218239498,-5.25448732421518124189362989691954,28.9574203199844939428757685333244,-69.7158024026765904996763945666390,113.808925824721959721824339102807,-125.650392502351261417690115156468,84.3362434533681409954913797456249,-24.9169449878014075117731344672385,-5.26633494681142659471648119129946,14.0368589575309157022481604922877,-11.5048220160715032307716640923302,-19.1837058142913483836687343384099,92.6464892649257350052048396786868,-203.805901381860080905538160396722,304.096737468838014740891355954222,-313.084697415744701649690745096602,204.840965825993155812373419194243,-62.4290389158604040865189955149818,-8.46011269871093486352194047763295,16.4702023861949795207766402014867,13.9265076841727536915765470666095,-123.397194570246125519243170882719,335.075694204977653061339312382972,-610.239318307469666369935085933951,814.289832541277426685848972431508,-782.039663125601240519034248168020,497.222850089700272049617700860058,-152.585493914559652773335371060707,2.85784472550783551917547849417534,-43.8753696339561295210592034975556,200.987582635969955580020905860345,-554.782865357743737530636623746483,1120.85134677455923251668003085761,-1755.45047972129367083603615962384,2129.77846410861009094504171277803,-1928.32159817453391748064265601582,1194.24411089397690238278884452828,-366.075644610117982120052424655885,77.7416181475056337752960580482337,-350.002291010293233944344670884804,940.823596305963446328250098587337,-1977.78018208407358392101455031970,3401.01353213078732973952488829011,-4787.03644976452766628704488351170,5394.40129008342807746359827290781,-4658.88336489919222727529221280239,2821.43834788203439830286633420178,-861.535950370525629430105676132539,360.492913314043511040813650075515,-1423.92811399765419831489307341748,3299.03903312874653623889348398743,-6112.10164140015418317892897524908,9519.30549545402670297476096790194,-12416.5342876240907789621454443256,13224.3365873405392224373807179247,-11003.2836784145556791440616748530,6540.99445560036367116052969209892,-1988.16433762081553280799483059560,1235.84509505230268338200809262116,-4630.76915849990167661402604148850,9979.27495264787796926807251645398,-17168.6773711309567708413919324494,25013.4235244642024188568402915594,-30849.4547947818774616981834599881,31456.6605104800963565067233180769,-25411.2563894491269343951676599564,14876.2787363621865328715632402732,-4501.18644684681692197554071357729,3665.76412838323097308358700204842,-13337.6168579216587115105569166796,27506.1866443475331078820192421684,-45044.5026382851341258526643183340,62547.2188502458861947875407496028,-73924.9286459727980822982497866117,72845.6222724125375283222912651760,-57467.2199843386587043422968211126,33218.1637380880397557633187350058,-10008.5626471046149353832741235895,9947.44870156147099682116899706432,-35502.9301050862728476065450171737,71045.7171227982398663692077122774,-112274.005155216469195745764552298,150333.185554406292572119478246475,-171852.487296796822008684905431833,164767.956596840185044710217266846,-127498.319898787130754741663939841,72920.0349227832179139832007069631,-21886.4866025216127598478375161925};
+initializer_list<long double> lc={0.0328175674470255208597162582412785L,0.0765395964796936552174990359420079L,0.105978956565177222031980666194713L,0.140310601853114280261725172298325L,0.139641019215072176212939485486408L,0.158674233643366085812596211153296L,0.120498226386693298537212388918442L,0.127532445365617437478995839843156L,0.0519749352970820895559875415609084L,0.0590791534885723739923653943192401L,0.0158906577291249328611059309906672L,0.135663066892107847096463939700461L,-0.00965225250968703633335833308382282L,0.323027830911069398613144314374212L,-0.118282266640882225974211922369701L,0.49744561063076658890180345497429L,-0.300335456021138661195472037138616L,0.618627238619507206782593207481732L,-0.449550299767386513656998015005322L,0.354634186812026207538881115864354L,-0.314624571069011336805698728937066L,1.28552128034561928603344065854065L,-2.24087577700424406157742356566992L,3.8024794962963999025132803680154L,-4.92601522443152287471639367465368L,6.59496157462381654537868992223219L,-7.43593380029092399185351000979668L,8.09691292130835596710040914011359L,-6.69833219885581611011754338961058L,2.99620151492781447092758559720866L,-4.62693083988620584465356630458673L,16.2185843267824252217833995276603L,-30.9565785605927133562828148329796L,47.9223431777085268165396426379203L,-64.490318905564787179432090652038L,79.4720511547109642002711580460128L,-88.0755448648414106796892128672786L,85.5795385638194333901253306970337L,-63.785720880146834502374047187707L,24.0258791309459783383125679643799L,-42.1843948107984128449794870986006L,145.690165981177182586257291630539L,-277.770208089144841890640177631731L,421.878864147866392871626780791023L,-558.844146444963451560149278770393L,665.940152040657135386660584154708L,-708.901023248838478524349351436403L,646.944647116452862160176662701787L,-447.953526739671229758824695307534L,156.625032877772025968779257966041L,-260.434451575091491944504965803948L,895.092262164934613259174466470024L,-1695.6600263497059776517018376407L,2544.90948497867984186178217587608L,-3317.34048060254215604757527153645L,3860.23522646497060290896026025193L,-3982.167425544783444167061353896L,3488.48821602959752048644335204573L,-2308.37096987117053505175830644776L,776.822601474601841951683893681662L,-1107.93229975560080900465284933058L,3795.77728988260628194889109233318L,-7150.66605488295085591934929813789L,10636.5977476414332255596232461034L,-13691.7993368583180571918401954902L,15659.3543435757046515104532736551L,-15797.6231640407772274772238228252L,13471.0024256100356112122321287031L,-8667.38783485240300550775364131775L,2854.39358137733480846501969927846L,-3296.12754312672004832676277882143L,11266.7778931793951296418350640841L,-21136.1270463462798476232461973441L,31237.0021483740864999815210050267L,-39846.8193460095584046686622075979L,45026.2144448993386091911178916974L,-44741.906227577688547235523448559L,37490.8903465790847992637765412066L,-23706.1926746084349471166052499377L,7708.12770942092626909566654392786L,-6947.97608330955724935966529275954L,23713.3043855130011957930190625554L,-44360.3174583030162830599413934968L,65279.1577592840324112841550126091L,-82778.5014884962500527787039620059L,92814.0685326955412794956243199687L,-91352.5880119723869746731441260594L,75730.7896740680044404991732282468L,-47392.4540473696124331870716463243L,15296.4492695735881582419208456101L,-10481.5056551564576842162279875852L,35743.5846750434011054743632519014L,-66763.1164899200149487448783635792L,98019.2450934502772474538240080488L,-123900.230041870055222319769737845L,138350.392521339695676568790404752L,-135494.460891925636849958581274717L,111705.654948041347311435314003695L,-69540.0230425145523437615848698565L,22362.4458367762542939287895471912L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<11,long double>(long double* c)
 {
-initializer_list<double> lc={1.28345332952758638472288061054870,-4.27998592189246821868579703423822,7.59540310132982248202445534335490,-9.98511988158930735688704814103022,9.64315306442921509382222921834109,-3.73259896711843755102743414595024,-11.3877379351042301783325295897493,35.3405245192025745190283676696196,-51.3824872960459634688807488599685,38.8781588538839926989489633801774,-10.9618771956958129011353074516667,9.46855400714185898488325952178676,-32.0195893684608126926094452117956,58.5099602935733868374666854736711,-81.5126344764751339253072628503265,90.8904633696954667667601458004572,-73.4833239414790400405967856236068,20.1397550093682996091618900017761,55.0922277423269191366197018516891,-102.260776727703517546480457592070,81.8653510460428483581539615826271,-26.1790420341875388281364518924191,34.3884653395326647045295826763132,-115.615894779967058778804072514129,208.794768527332050442446429740071,-285.272151778686369266917924027362,309.624966820755386297855761414213,-245.293015237485983980680960011360,82.7160656156003978780546512910213,117.368627411720552656430239515185,-229.778103816755236050049277015067,184.536351625756306150145103173708,-61.1257417957347417038799491557245,98.1642087044809666153011777142133,-326.845019291852074844546988125066,578.987007651069395956124102015683,-765.920285624104942237323690568176,789.287057294551770149674884561639,-570.306499382819969209081268434451,127.375115412781210001811354097518,350.218080115231155203588280168738,-578.398965784749717693957375289188,446.040533667407034955589715059274,-148.340168050881728306592539339857,242.387267698402354685457149516223,-797.053187627089960370490093348008,1377.14428637131384619061017580381,-1744.67226072033933326779021593049,1664.14867571715485488836209363398,-999.371664152259082336553294386942,-109.975135997096613691374995900275,1158.48291481260314480300479308183,-1544.72402364900957359043058313676,1123.75508258960195699197431385103,-369.910829782762456155496950710708,534.715125331020604690216436688136,-1730.14242784561768581350336343365,2891.43487107758038662995214518402,-3443.39577960129826069157639209579,2883.59356477478899424394870243484,-1043.71434622715769798887599931306,-1559.52460031363836346566813882216,3697.85201817331709029131398747340,-4167.09252459750024422874650199143,2865.78391916326923340945844525493,-929.331967017572789898170185848028,1059.99977057688228527850175406768,-3352.02194887872848328960360255806,5329.35525135131998837772759463773,-5715.85605146951640499154079492212,3548.72722732407029681302069507190,1197.39105196781147592684027661500,-6993.67822250038438685361991863175,11043.3416496017877201971492641257,-11054.3183018267922725574060781839,7255.09916049836714746123437452386,-2317.88548181722775502590137011911,1852.21199940557377997990283674517,-5637.00197159849696870547564971453,8173.34866548751666571237586307839,-6841.49639920781736675770050122247,12.1626382976842242870652030827970,11586.7893354497751508898874865886,-23934.1825885079552404892451955567,30966.1760813318737265521894653051,-28538.9966541228482175531139894932,18053.7852301434253230723709446891,-5692.66002711195394365424810140268,2648.83579595469107522468053115144,-7388.81487939947103075880702225140,8206.57220819326676144272419076572,-135.922725682346782672537935672878,-19094.4939848027236223578348313847,46264.4698260124908354192614131596,-71561.7634813680661992011453304126,82345.1278495799800101519031708294,-71555.6590941751967093944774337891,43991.0849982812081634601762105666,-13719.3140295823967081982997874904,2170.03577909641615268507118864615,-3628.42589440264810496155405655121,-5845.91594461132273896165459115946,34807.8356074572550234074719325037,-85141.0796168832689768154707794604,146658.654494340123776337488942887,-196651.578540822095145685223960773,209626.444936447962791734361911676,-174478.586821245263019506660357624,104902.908767890774274461504876178,-32420.1813325788608478130673345233,-3791.10948404625746765730409545708,21198.8863785728157157296974666778,-66862.4933941434517056692975492409,153553.395660651827239907018023886,-278611.852098453149398535833869695,414080.236040913445592530257469735,-509452.248331011747473182990506778,514808.611701425689455612479338871,-414803.483334919804313513607250947,245049.163905091856060132231617549,-75169.0046370535616281162613019829};
+initializer_list<long double> lc={0.0281955806013214177379422478018633L,0.061525136403557882532577445863979L,0.0956309181974373403041568421584019L,0.112638576493316328649883491486401L,0.137058074193624887223299904758292L,0.128884373346666390670424491573684L,0.141160641711548329998433438227407L,0.104313234282096518678690904712929L,0.10848053533771719109345192295983L,0.0436313111593956899040051226815915L,0.0493672892002895268051651872141921L,0.0402956729514356318064754847502769L,0.0192273075334184938701534169676336L,0.178478703392832619159097121391878L,-0.0185816256679933063692371646078942L,0.322960692002232763905567974618187L,-0.11680668458987691657643105869984L,0.450281753643063776750990456617982L,-0.268647645488138617714242673073757L,0.535094486832245974418501189484507L,-0.386140576685491376388483687245659L,0.300306616192223307600030055144722L,0.291828810496911270184956060590117L,-0.857532624853558471759866829993717L,1.88621498038844462314941654926824L,-2.69877012552457366264470717419715L,4.06603594377082028234991350441828L,-4.95391598874942987614248039825668L,6.31999098491875720427884307982002L,-6.93059312437842772140144239950233L,7.36556136583617090837270211490501L,-6.0025091792409081375473111171339L,2.64861295454876891911326848406653L,3.93940531180526119388924323218944L,-13.5278429306575641873437564680149L,26.4009532068048616585142771756764L,-40.7604288526637011999578210068663L,56.3537507365262820547041017531546L,-70.8671630532003113036352384660799L,83.3422519560674207260210080963583L,-89.4155222750882353133242065209466L,84.7201938810127843425406568393515L,-61.9673275975759789429106247287906L,23.0221815523657750635394972592386L,40.7590149226618738571081197591481L,-140.976829246246518769063851350642L,271.341815116950643230967405027857L,-417.024874050973276991085389635687L,565.125246808107025337200693986706L,-697.650094831039749945298533361446L,792.02874602830136285625399472083L,-813.863675119296203024900651653521L,722.684060060801501001634602630051L,-490.007505128771773777357855032961L,168.949323861528943738375698916963L,298.551971499985265562692236392844L,-1030.44903178205313563942788852799L,1970.42876316390125029582701849365L,-3002.38463978669697465312388603615L,4013.09650863930786814804729943975L,-4864.24023162984201945240906279867L,5380.80054548634979597881079337866L,-5345.01778008632748180729904226238L,4546.37406347477506708419079578455L,-2941.43804348648683237846107270491L,975.77787450708719686115280884066L,1551.00516647787397845759317233748L,-5339.99991757763317208072710017807L,10160.3696241020485861977396632894L,-15365.9830677534422978814201029724L,20317.2803685673587835003315976897L,-24267.5570505212330653604916033315L,26326.6031139637921589048382536543L,-25517.1955080467456343759658125747L,21085.8434198729729640093326452014L,-13247.181806873166629460477524347L,4298.45042936615050057541257722395L,5773.45172300119837554855544296774L,-19836.821109223822816066097904619L,37596.9121042818477382050334910179L,-56525.0524476068089145888188756148L,74120.7335380177098581869577167822L,-87557.1745676416089217828703350193L,93645.4991540632207421369567017116L,-89209.6782146039478495301304020552L,72299.2794306917091905256762491762L,-44576.7217794346828224150788782247L,14271.3317165197888256877796567121L,15573.1755258441302625126940579029L,-53425.0059009481905680464350009259L,100966.315649901636551515135814012L,-151139.873072193387674221632706111L,196997.372404426661223412270922123L,-230873.99363291560789268594615427L,244485.977419480969146224383259492L,-230176.600310879576409688175150289L,184168.869818070197247267563548403L,-112197.241762091327674189465449098L,35622.8689373072828125616535668862L,30743.9866047139387379131992583165L,-105359.776108269446671317352283406L,198731.846688143587819383311548583L,-296625.04904639577979562562736497L,385082.420938657013196113110003136L,-448966.655888032030905039032284809L,472394.020898457065946706790857426L,-441431.302346287286788146794304487L,350394.207444426349890847937086918L,-211910.596897260257645238433473491L,66948.8412431467302620524285356671L,44757.330757205538173741393638303L,-153296.260298668946651766241925195L,288846.554377840778503978814394435L,-430449.875697137207513064073217885L,557611.540475008177234877230950432L,-648311.679585589536301364524628193L,679818.047224796372702842167663926L,-632767.16178659216131505139281708L,500196.132143151781117021287729078L,-301376.882451321814522094830569913L,94974.2439556360915993765707510934L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<12,long double>(long double* c)
 {
-initializer_list<double> lc={15089.6077411712637269975142488895,-53536.9962448724198284308071615527,104840.018462781547348036721819706,-159648.115779110749515600044623695,206416.266092993910682466902354441,240636.812280141031376886408547024,-221694.604512852050523499542549964,181871.372682065601862679548023660,-128190.789961230705865007889834257,70468.6334160615646654576884379590,-20985.8179728091629386479821537013,-235265.376984656954350963862383055,28230.9710188627028076798864952847,-98874.2923646512853511486590311750,190492.731233182078104052256756147,-285935.713149721807389532238094851,365799.749635401750401805738605998,421386.052189298637802999433702304,-386996.777548152534200202392113113,316827.275529666095806793857583104,-223020.143638842234341065056512531,122501.067276339187117666580726675,-36468.3105542663351688543163561243,-413942.100364932102776912570109661,52292.9454372233683188543258498666,-181404.117583281461136661201335661,345209.211856214789343718256790637,-512414.881607542186743159657852767,650048.796101148521280028148578376,741649.553947451000720663956016747,-679389.050542365348376025075675632,555284.598527743555179896396350405,-390466.901885730330409861250193067,214343.197882029445452989319784134,-63790.3959580075569147367791212019,-731362.613536603802204071569135921,96279.0595493672265466667908700224,-331595.471001569431723774421192094,625079.376282918736400997238882680,-919779.734334581250944395153099911,1.15906680911111420578963056418508e6,1.31218860072695799894125014795477e6,-1.19958355742390954388163889863727e6,979182.343719706841341031417535276,-687993.472264430223281691457064647,377490.508124443768159328075669239,-112318.934465189244250238135987820,-1.29801526867685687500325814339232e6,176667.476210372237170210744928684,-605131.078376183526801240654979736,1.13240317651827413623386695659344e6,-1.65491902823324577640260773488461e6,2.07443213240388174917999268372081e6,2.33399790247409471920242322273323e6,-2.13030202563331732317437379723867e6,1.73718563370674578835155434140680e6,-1.21986836032178567581898579164192e6,669099.863654972011885512037890708,-199053.374229345164874164099371301,-2.31451210878320056171036774411408e6,323688.526141194669372628160700051,-1.10404861075333826556529136651965e6,2.05435061393382689365170679251001e6,-2.98617958277422843463166408598374e6,3.72748402298736546890103297975769e6,4.17347601997897283190062117969177e6,-3.80463483665179926265865788847026e6,3.10035173783738143590473150300052e6,-2.17624598501114329338920159290354e6,1.19342856127630604641924732802731e6,-355005.196821837363139233251313260,-4.14666509404121435036989172285978e6,592937.913577826219002901289714693,-2.01583779871611734980514594560753e6,3.73442579298146991753137569162797e6,-5.40548849317012111548344069274888e6,6.72512968630238708546681463168500e6,7.50142154125735209514337989671080e6,-6.83252460415096072238680978056538e6,5.56519704922937583420712137562504e6,-3.90556535903779412010753363085849e6,2.14156821151205508031582179978465e6,-637023.570630328985256742945870523,-7.46424021681935573729225193425737e6,1.08691158952958555078838992972864e6,-3.68592382923536253479715231233254e6,6.80492317255784111657666954242044e6,-9.81761177562096121801164839405927e6,1.21830303656060615066788679852713e7,1.35509532814989528483366014342238e7,-1.23356567159237114544016062401250e7,1.00452510309818774654357948295580e7,-7.04919324158584086195962097179524e6,3.86537354895069795573845615908684e6,-1.14980368731510075882795250347902e6,-1.34982536049212982386562992437886e7,1.99503130796916227362742953344889e6,-6.75237260049050487156858673215134e6,1.24330683465505689069926351582500e7,-1.78918818746786295571712155063310e7,2.21591209757328536627495098489617e7,2.45977340807546992095063027236574e7,-2.23852172645236225301885337663312e7,1.82283647034072501129245484467366e7,-1.27927556566330915026709524155804e7,7.01553026225615558725419530822330e6,-2.08700027699722278076129564275001e6,-2.45196218826693977177235201805281e7,3.66820807125670614428577271924756e6,-1.23968295392537683567812659004069e7,2.27795837138188649383712588249625e7,-3.27176607045688469710918700238267e7,4.04619523742295002719107271305204e7,4.48570675947578613566743085665823e7,-4.08205367204375772041106130430976e7,3.32455559164270620608099662348981e7,-2.33369670029808216249566460816808e7,1.28003396087192342794296941461207e7,-3.80831010819175456620149416980085e6,-4.47324030941647081814208342856777e7,6.75806427148100004564895806218890e6,-2.28131018672245712597686860432526e7,4.18551735986358172923218517609432e7,-6.00291548365117788746480576164039e7,7.41623253858293769372819976902042e7,8.21651942034578271131653018026574e7,-7.47851670328275326650352087627687e7,6.09273182190745587993423504536959e7,-4.27827180431680426865683684961523e7,2.34724629113263035968975641232769e7,-6.98449874558103115114829740774126e6,-8.19458979639261655645198582173746e7,1.24774865770276099141477113854943e7,-4.20842554701771512598430774577837e7,7.71243003396692450092868318410581e7,-1.10500370394579456660422390226123e8,1.36428323355684144407955941895708e8,1.51140394155561773061306624280383e8,-1.37618632140711930567817502465051e8,1.12171290232194631794338702852702e8,-7.88005368711531526217271002889828e7,4.32475425636328033835857959818826e7,-1.28711893214967941379531241294378e7,-1.50714352932616521810930426075388e8};
+initializer_list<long double> lc={0.0233281566956188775522399102830556L,0.0543783743863037803174945798794516L,0.0782535189933838709980127979879974L,0.104426520089793416183241451439411L,0.112687354269653393627351449797933L,0.11760945572097752030999052142412L,0.125449340512925221968331464756012L,0.0908550857590878789696237550135725L,0.0932422066721440064471414406601095L,0.0371272153639414298242704819638021L,0.0418602723044925676733943694486022L,0.130002182108318410783633232271292L,0.0144677692062439551087262190313149L,0.0853674131059743827127190050846357L,0.0174984205769518905071637327992934L,0.200791525845281428013328656382215L,-0.0241130562922793533759346175843802L,-0.111792456318908030751865966242132L,0.405475006653953207186146903452399L,-0.239885383031302306080472843825484L,0.465946774509921376058359129049782L,-0.334461287936941243166557070691333L,0.257291476595347602931268957678856L,0.311355168900519662517884961805284L,-0.179061490731611877850722789648611L,0.760807033909948036580913430232402L,-1.30135954792724523564810971427645L,2.27902446475637221777679273243012L,-2.94511840608342831948669168076825L,-4.82614694879555419319524086267951L,5.95100090444013243909431936854294L,-6.39460433745527525694878234095514L,6.67341389621399769728422253614039L,-5.37628988018880655110105525432584L,2.34764964416764797882876379656614L,4.1257333305966707211471438621354L,-3.23467776008116898904110062656806L,11.3973239299133885688452210867639L,-21.9661820200534489839285646727485L,34.5831195579366506108694157087254L,-47.8092720322751308911615809403057L,-74.1420222426271753120164771779211L,84.3608081276651486956455196808838L,-88.3741489189486123006572362734107L,82.1611040004586778597846541121768L,-59.2354794497851477388235254371143L,21.7771312734640990600898777661865L,61.6886365571894106967454455638616L,-38.0390645334562832030315128308599L,132.21699519137869597031031588242L,-255.472084607212462994543856461287L,396.619778228188612704374272556839L,-544.575355804012361692025395499425L,-810.282458121830498257208497937319L,888.77741396675667641386224432018L,-889.76872291346923464145484816394L,773.925699536788114812513990015237L,-516.409128008113902561300406075127L,176.166131743485611898418264265216L,688.156879571997941453209084159744L,-1985.43011909223597829279582584639L,6861.39866639174920306827136730414L,-13149.1689143067596325284125130729L,20123.1975357598602756598662389787L,-27102.361712758510182578010441001L,-37822.8339937089548782778326345402L,39505.5219305779793335941812261464L,-37169.806427023559633564533368135L,29994.7716247056872853484517195486L,-18507.2697895644996388682728276943L,5938.72417524232294861766689506039L,33314.8196404811766322791563839362L,-8955.63781022067703510079335621375L,30891.7721006386419001609848723849L,-58997.6309018638181932079050419126L,89815.0924645456380071844098302569L,-120080.363319858490629334570015608L,-163844.568613311503644456012828536L,168434.016262691528138567571304105L,-155503.741925380518775484929027541L,122904.110246899778736623958334735L,-74355.1711869494045236356675000543L,23532.1266752401790367591838569247L,146161.679923318146072020645917228L,-29855.9346447295004048257219066675L,102834.16023419844016930816190984L,-195860.855463830653875696038741977L,296945.140523522166108797114340928L,-394755.942269314224147218470280246L,-529546.509661720561837309894513788L,538099.282186070646598345640385376L,-490172.848230607866652927359830241L,381941.292870875199538837496417083L,-228084.427442866247764549577695259L,71549.9196981031165797405625735294L,476908.515859276628996221735692634L,-74232.8730233090873677309785514245L,255403.276866511823672138052635582L,-485464.961899395657930159182638752L,733781.454459325848607642327651873L,-971423.297010108076032748651120518L,-1287287.88506291387306822091428321L,1297474.76208055414312176384718011L,-1171078.72650752114524044419771868L,903838.705122243398431530833614311L,-535173.077837413742881687348935481L,166934.895044889363209657191801866L,1167229.61271847410263060253881124L,-138729.649846245588993922900982497L,476954.432401784833182817875336639L,-905346.057949097446280073384752287L,1365638.69682085595015755195612576L,-1802880.07876336777880590107787774L,-2369912.45314122601595454053809564L,2376087.90530582980319338639205094L,-2132025.08772706788731437349705442L,1635648.47144194764833207832648236L,-963392.422856155625188494687985058L,299468.215812935378349538925029534L,2158489.98055843491455936095095533L,-196015.227093714912924667260890941L,673629.205345776836766330452332264L,-1277715.8198973430223227781786985L,1925182.11305754641633439219919353L,-2537730.71976783532958444800910866L,-3321434.60984950443266291699586776L,3320732.91012676883407328693921045L,-2970384.39505206165963823058443588L,2271672.56283242809063108290127477L,-1334354.5058664788295870581894257L,414041.320183921449500164065954503L,3032379.15676081368277446800573645L,-322.355719911248324911793805608539L,1116.6143547870953485920649735278L,-2148.65117049045004248261343084387L,3309.53114730108432155001915411554L,-4497.75967723878709783154967333305L,-6460.12433074750405286812858408294L,6892.32296221338715194385568670027L,-6657.53515065960166488341978242833L,5538.007161042436432910699761739L,-3522.17643798057833685786865155016L,1155.81583313963851788704942356953L,5597.74841184027201249394870751L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<13,long double>(long double* c)
 {
-initializer_list<double> lc={6.18176128296585651431497281229868,-21.4088030061599777549484032729396,41.2032239687845596694728666761738,-63.4925321577773207362388980947601,86.3571897810684871346136666507078,-107.376323509645066107188109699651,122.748985604790250260686850137561,-125.821025933731221721350641927848,106.229079052892702036295501226120,-57.7526517733357370831992229009417,2.80796017296110886466495492110461,18.1708135972188138509595955089030,-6.83976860739174900281954676113182,29.3715050623387684470027572718344,-102.458687630185083384937249125815,199.730079683471677440457023026257,-313.287981523747843967636071957559,435.283609024639885128291397773519,-553.316659533304449903135899854425,644.617014804846142554402250378795,-671.512946000560933525303240085486,592.414474957434794276964958785331,-405.397306014535834138580289873806,192.298188003645367255421230838895,-57.7355397268278415849095543304905,10.5021886373958117243017056266526,109.796819222652565509932956362379,-383.654439845620646074332141981135,749.646798473143407540220254254825,-1177.90902593643831084103945873768,1634.98888025749766493500806048144,-2065.08918373553772654497109080839,2373.27152365996178647401426575764,-2428.28240821921111495562837070537,2125.01151597490212799465359920317,-1509.14992575826129732744852569438,827.974187706390957432807178377929,-338.771145183342314667239495626082,82.5077078986521267258588636215613,364.401954968637154218231122282557,-1271.80909826366700920727229954761,2478.21640893483550305152313432620,-3872.71611269922261506000245035004,5323.59355927527735002487662283664,-6621.91504358561600654948777304339,7452.81646658216690870427715056826,-7451.89638293175478476430243125628,6417.05041467219184434157550676166,-4587.76010387560030270007882856004,2635.93729272135220925235299737903,-1166.60756701658194498885644215174,300.946214002136633333238429609403,1110.79189233423138258940385846226,-3866.30184334451451028218878622838,7493.29352088790168951633861250514,-11606.4586260758519358362946969648,15745.0210291829313373269832896067,-19234.1396904612381458065558061619,21174.1547851162015706846519838163,-20690.3178434443890340265256211797,17506.3965182655434541645882066747,-12473.8653002940024272424737056761,7292.45935786014518749560281023128,-3328.68586831762129404068217614148,877.860102844354449419191284854018,3161.02032177507813559289926500141,-10964.3493824537437963116181308778,21110.1464575028362714434945330750,-32364.1647395409989947397328442650,43278.2882637445567887630809913092,-51901.9534222176241992660239284948,55922.2707454204850212995964618209,-53464.3405854061391824806188529721,44445.0167831373896569395467731564,-31415.5750374773712997341616629642,18452.4160238141046915712281190431,-8528.39532118778753390726671880366,2269.79462604693770452027151439691,8490.00766350392082721256189847668,-29336.8868750642338453783871334953,56085.2395004147165809155544548837,-85072.1387734536792179399167913700,112128.402231602625940668427631900,-132074.219978286754622374215572421,139424.996683648068971573079965284,-130566.051910501593915892187690820,106640.585242934873437156592982030,-74553.3496963915032333254349411291,43673.3110434210987032902160202129,-20238.3420851491310454964644048446,5398.59790906169474154003242121813,21701.0715114788116311134877578281,-74694.6450482564853545203889477978,141774.993514310743072441109354167,-212768.931786630469289890740130292,276492.598490690282184619091392570,-320079.347134807841919887159267228,331357.217692461408619507753960314,-304161.301074597363070937350937284,243983.247241247347372713149815408,-168255.310189957191787398613371065,97756.3411377407112798610511957141,-45106.1141708361140432033726396208,12000.3129480294247063445069704261,53134.4532335960797141761792256160,-182171.241919160152494634331286410,343302.081579090130369562412205927,-509820.807280470630595635889101318,653408.896059735369290177128706426,-743800.778542937348719704076921395,755513.715009430706290807095803861,-679849.177079528331636172642835853,535020.381472694576630315623257823,-362827.156967477125520238050467350,207941.321011689110505169658521633,-94917.9017130505049146905651335487,25066.3344108193497365611609030378,125260.221645464650989303276511887,-427775.383558202621694128131288603,800421.970057918868148462675466045,-1.17637400052070059923049399661480e6,1.48728940126686937453626759788493e6,-1.66518292700380066818988699038920e6,1.65958903838150501805882031164568e6,-1.46301936029668083674363423236896e6,1.12727794170133096268629200010303e6,-748623.139641324528492550010613683,420421.710974803979726496073276615,-188363.541184953027412329491376818,49078.1763737082519043308250946432,285435.621256880168097672100240963,-970970.137533427296022496082986284,1.80390490931779843101413877277024e6,-2.62377417868842167164438242346562e6,3.27225391169729268493759393897235e6,-3.60268613960207330448571494256314e6,3.52078183805347001471628905531302e6,-3.03572068995387635182045046975868e6,2.28233082017965587679532530032986e6,-1.47506860792357783427356743267697e6,803962.169860904652893185302721120,-349385.312718931168465820607502546,88935.8951921271130894231838923503,630588.341479330296000378095066653,-2.13655549975080224050255855594220e6,3.94075433118392033309939261753250e6,-5.67147201365465580458931512697987e6,6.97477615211067395743818446305069e6,-7.54579103786820762601810551614704e6,7.22003332146390328825210208677094e6,-6.07070801759000314929402462067901e6,4.42837746844219411181447561886714e6,-2.75764092177604552736122791281093e6,1.43532802815457896529935265802916e6,-591985.665722056446007861319541722,144295.605122199065698044194312577,1.35339451820168590660471632236399e6,-4.56673844274125271219955966836727e6,8.36015671940810432420536505632625e6,-1.18996320457077296915500087428412e7,1.44187945516331407005332856284268e7,-1.53059464351299216546769646903615e7,1.43000159163783794479236190271853e7,-1.16657697633335144424944087919689e7,8.17886687936224856409502137761671e6,-4.82152568873485756279140058758120e6,2.32135807933757355274280830023582e6,-863429.147652855199807858655629008,190454.944196912004157059317778034};
+initializer_list<long double> lc={0.0204331456439523089061998061533975L,0.0453914110196050645132940540521594L,0.0707520398295166477820460076744223L,0.0869793083241394646775968082321827L,0.106895857565537823615185088381007L,0.109150250501324240974435417362182L,0.121383432372942806912043242248912L,0.106788083834044745589959402121811L,0.11167510889256078175865618307948L,0.079648150122843958251822404897779L,0.0809079180114817089030141736290972L,0.0319641427602262314048479721255283L,0.0359396237625301419744847156384874L,0.027059735461252183369373299703389L,0.0222069160674295297231162804092003L,0.116234553583701987055381783579639L,0.0147730994206983176433285647766478L,0.209525192849117041879677596403064L,-0.0271287353136943890503684442992998L,0.294201900403291138986143538218908L,-0.105142158779745785577260734184545L,0.364681206006538024840089499629498L,-0.214414173319479474502644083652783L,0.408491535323382423528221981907504L,-0.29201033323916432411537859632678L,0.222722061925184343617045395585197L,0.177662425185134023415583970543456L,-0.503874192904253616051848031323021L,1.14516804381669689161666782012931L,-1.61090410037066776209764080374458L,2.50367731921191729166051959453584L,-3.04160146530603304370680431971414L,4.05776251262320347573885453466574L,-4.61214746347922789744226753031071L,5.54627852073912285571563422334689L,-5.86871881050645533398685004732363L,6.03940810184853508355276642931005L,-4.82192100379454007809141604906681L,2.08842106756991315327969696416018L,2.72629907907617433104009435470968L,-9.38874800001383831447671620505139L,18.4561382425757277641087360668695L,-28.7971433684349890518900501696893L,40.5295344969340417811053716292201L,-52.3712608846989261692550153065657L,64.5194262817376944133049066987195L,-75.0912325206505583578502816684841L,83.3834612660812499746416926040457L,-85.7811389039830163294421035795923L,78.5905118645594683508570347797393L,-56.0254232694308338697567463300596L,20.4284010465276353672910848226409L,34.8089676392357949689399679058328L,-120.989268252231001287600835434685L,235.001021580831025131449912114785L,-366.698099303241153344573247977687L,508.778555740886892402839943571389L,-651.893634797198205413846627729518L,785.973903765996319078633394114586L,-894.780828465872048755173372812779L,956.742277434502095217916035942617L,-938.958112560948537614025812039924L,803.736340879372893222745871302074L,-529.626342450542564912954984574273L,179.180972413690267879210799191519L,333.027923084373893845085117469908L,-1156.14144756814047343892505687803L,2235.54220960454138591736609816789L,-3469.17301684214929365518633091247L,4770.30328475569608463912827606923L,-6042.10994430480953162973272202109L,7166.19224662580484837537423129441L,-7984.82084630085164815468597999668L,8292.71759960554417898399814363321L,-7840.7132005912181719480466456429L,6410.51190854085934301748509092293L,-4023.05210724323167459495453496192L,1309.10016147560349124606154879496L,2372.65957622509321195528330422742L,-8222.13378378985340086232122455283L,15841.712429931736260956122206046L,-24452.9026777524136651438529686203L,33368.4599605613250875754755154392L,-41833.2432109596707091117961320005L,48941.6605941511036416131321226226L,-53573.1394259927363362093912892855L,54393.6075096359267389353145113532L,-50026.6432634350779854497763486998L,39634.8427866821358663933807346071L,-24115.3881382525980414383442567246L,7672.00764299502933078677382558811L,12634.3411479771970999182370268776L,-43711.7948119864029000310034903887L,83964.9440587545656809736973873505L,-129013.569232927366932190828793876L,174927.525217686361735527439634285L,-217437.198733050277930807656821735L,251577.951816240041130517450202238L,-271546.66791242799357162041008635L,270991.701764595529987358708067304L,-244254.886963925040466250507374546L,189344.952887889000375192976151712L,-112888.60661152381963461398235609L,35412.9226018561829934229132172801L,50624.1627708920373911509637605302L,-174911.510046350626838238173613154L,335145.153472322053422656657555861L,-513024.23690001114711128874063042L,691998.474339736612586213895825989L,-854300.799844897696161281280602883L,979853.377078888900675110691844176L,-1046266.3543702073412673918626413L,1030739.33069097194037689808319671L,-915555.433892034971462335828479742L,699014.838434282037494703361409089L,-411103.524735277481401705244429209L,127788.24724806120051893391576078L,153812.733917820102708688932728003L,-530870.483605980459397395963979919L,1015189.61542207023962213214593209L,-1549424.19806930973926550686141655L,2081522.58658286065856760537138207L,-2556217.09735660064709998346276254L,2912514.13871759606671457214823585L,-3084914.27264591342618686977561765L,3010550.90129008679104137949477771L,-2646313.23939230396427586466098206L,1999129.37857672028836046831610653L,-1164878.17122349093960509030328973L,359899.928961114748985974940878497L,356980.476001264248328245184656769L,-1231100.97691396117690478051602083L,2350792.21462626096820835963732511L,-3580023.77729891059449973603753757L,4795134.32249587648965058145514869L,-5865997.53308194742802973559595287L,6651592.67123165682995428536490686L,-7004743.80634651509614984908506736L,6790518.25652543151417280157438791L,-5925873.73590200561678565931478011L,4444484.88882408415021510562322019L,-2573775.52830887622388480955787517L,792014.428936687302380147664691637L,636790.31686066233703639058090665L,-2194876.17013869938629769845306806L,4186954.93508749558993305733379164L,-6366887.41454231203528101478105983L,8510799.33904236777093835258135867L,-10384624.5720669358653358093765201L,11737862.1189399888197205039743279L,-12314148.9506376535707129066268403L,11885865.6439385047785253742586918L,-10324154.3017757307898597143257756L,7707827.92757400373910170254354468L,-4446204.77080068364669539486170755L,1364797.85731819187041613975562392L,877114.793751288679726191106207705L,-3022322.50724049967518061354694564L,5762252.96726138966274498223806663L,-8755276.18843926275494863793773519L,11690627.8192302267916659102703105L,-14244575.3419333946507294181098713L,16073051.9687628220548843562508757L,-16827728.7404101123490068932694535L,16204836.8922257045040998472998234L,-14040836.1397611416064937743350155L,10457334.9588265084248745039939778L,-6019951.72890203696220119085490692L,1845473.23872003523985881163108114L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<14,long double>(long double* c)
 {
-initializer_list<double> lc={-10.2910491201745120760288238798559,35.6649932160325766216087854954939,-68.7690593391070322239773060026256,106.433249186057306353358226526756,-146.143486192263888634426069128872,185.396425039936284368298552881784,-221.090120196881314572561012603924,248.301799929366066500321686931137,-257.919153498239416344068534306548,234.545421862513355709039423111380,-165.851313176512109847948190194499,75.7307225154488337566831859905406,-17.8050930492445916823977585640482,2.80352091872003590267703510993137,-37.8146707034560216471931849212323,132.338523121893426929513326063090,-259.733684784192489963103004338320,412.461025995191069984437986601516,-585.586404894057694504223037784489,772.931726435990663436364108569125,-961.633253188619398000330484798036,1122.46223959614404495430285323460,-1199.57644091701316877767462604961,1121.31552041206719751305812266943,-861.453302899804054280584787445832,512.670772995702358558819040712771,-226.530722086344361000602291277326,58.6555525288880038328989934589698,-127.533527567558068145717068367897,449.176493725425051126095582527733,-891.308807027209532727550733997805,1436.18387126051936278669882594828,-2072.38128909747376426390596998835,2776.08252331922462692295432742709,-3485.35745561204618618254409204422,4067.17411303625056526637777473430,-4307.61478053183418376256732189741,3993.98336654513992651988387713234,-3110.01615947563108468749394495589,1957.86729941395747808229622248384,-943.914202007712387367735753316161,257.998792588929115675522030097295,-419.312810579804814593111085030069,1480.64665274544785401063865373233,-2949.65192304157869315077529318076,4771.86604845340577858550851665759,-6900.28250086299159659038787191180,9223.25105430236863196001650975965,-11480.0053489859775580134649227593,13188.4334419175073154991183962936,-13696.0362204070361748938844096057,12495.2164277683483114963516278659,-9710.66891203171241983336541072945,6230.48028130710408760732835157589,-3097.47691771321460217772884973423,863.797656097112537509597933351987,-1339.00310263941210727628402515108,4725.62434280184697359962248989085,-9399.29190846967954289849770048559,15151.2885643264611953099209732721,-21758.1474421982417075196197877979,28749.9844066859916243382265333524,-35191.1432420428247004905999911883,39587.7822848725395283522510871240,-40213.9972170044055749449035953399,36047.9663581223029295847100275185,-27821.6303942169349063666030589004,17963.3276835691916776106000917608,-9049.83293363325887593168958371618,2547.27955263636234937883135119179,-4106.28213009044319256162406732297,14457.1806257640591708874009351260,-28619.9664553266956805445193727088,45782.1593799479931736257968893111,-65007.3010965651290659364181592041,84584.1318258387495427664530270083,-101556.379215595866583452704190150,111783.504409719790475528884473014,-111149.978578375267179977880240155,97965.4592767790556120829488690679,-74967.7840375493932424312521951136,48442.8287714816997597629279454646,-24548.5740092550839834425666630359,6941.17487665328518501342424208789,-12028.9475136183700422887105556397,42212.8729024573739880055814938479,-83056.6348642026850456229409460827,131630.981157696759461999979766330,-184528.268990152725810908148091643,236213.661496403938985015239723131,-278208.662783639132635278255608910,299959.283374362935664645007412836,-292452.132584528075465530561074740,253777.860221333380873926291944072,-192484.901618541117920224189078120,124147.105816814914938433067311885,-63045.1576478192448136476814294152,17863.0908913948911992358100505272,-33665.5384543048312158658979689882,117722.830992710433456361987775251,-230120.732669742193398882220205942,361194.394175960216709447862988387,-499866.140965830303157914143308898,629804.977509051486575684121132708,-728450.831141326344952439238089456,770630.830482684409308943600205497,-738097.963772351945331989238733563,631449.719276302856561767380285968,-474738.473819861987392021792985887,305173.151354712715846369603499371,-154973.169073915456573066453409347,43937.0781309011444354138558335579,-90284.1418115437981418277820443592,314589.040108267087769676009874315,-610987.121512695244439409013297854,949996.932244973229010097897966123,-1.29861047556820315466439475105577e6,1.61197599678716421893265444102803e6,-1.83354094495486125241324005652777e6,1.90649654385793121049897216844349e6,-1.79686040748350440382596650597093e6,1.51730774721391092423589130639468e6,-1.13093026467387249273443478671252e6,723914.839572900093906717352267418,-367116.504437970604592569191139868,104048.878817886597186834222827145,-232926.029018366388565809734235496,808835.157758221436160756691829774,-1.56119024341736888582559084358226e6,2.40577130399186894658932425730686e6,-3.25071700325562888918646476931183e6,3.97970003137809377640153646512347e6,-4.45771966992559199321102923855428e6,4.56264228605076153961492904275138e6,-4.23751517982801615962226426767256e6,3.53507687500670873037895259326751e6,-2.61249724601737300487201496509078e6,1.66408326422924393939065554025013e6,-841917.241591225623948437101112553,238373.801712336430673073747044597,-580415.196636564937306662284442039,2.00891680998371169713254683946748e6,-3.85483132903219786047409861218021e6,5.89031655586515519148797316502053e6,-7.87335614627836301906415308516156e6,9.51604149744950038420167367820956e6,-1.05091077567252059187221590618153e7,1.06015075772588193988559028080866e7,-9.71276921979597256650704795085019e6,8.00992257767088472442861387877500e6,-5.86905598806086503622814728861305e6,3.71779752462101482920853222180608e6,-1.87497757673199836693165961315188e6,530010.768419340827604867878397507,-1.40203163101291605392867474300610e6,4.83765274514607714980715759916191e6,-9.23131935935327764401527248252587e6,1.39941044744811408027984866208683e7,-1.85164566363311182088679778238971e7,2.21131597377726123494265718386738e7,-2.41005827092396702341742281030130e7,2.39850437755133928084379744537103e7,-2.16930080735466903871415172982895e7,1.76906989955309460357212804375212e7,-1.28491092345788721286190371644545e7,8.08895574959350190169803914191994e6,-4.06315688352746404051763763497436e6,1.14604914000845661398108164616212e6,-3.29346623196939398018625123624224e6,1.13305077553145677347716393847357e7,-2.15073328660107436862470006818288e7,3.23593692865303477700182478094103e7,-4.24082436774446028030330824742114e7,5.00767803534740523999923169338623e7,-5.39011673015979195508110748948686e7,5.29552526505326896461320029428955e7,-4.73016933034785293944500230069160e7,3.81462894139935775945088491313633e7,-2.74516719793150249090771918397724e7,1.71603295062375451121376322393359e7,-8.57752261381901325531203805034596e6,2.41256909162304025762132772966568e6,-7.54380568648201912072365117238206e6,2.58797849901037752176758863697480e7,-4.88772258174120580338129624538280e7,7.30129212398209138308048620758100e7,-9.48151345262370629077894301926843e7,1.10757923301769417971803390185646e8,-1.17797404982158366129217538237773e8,1.14289160557425782185515366808272e8,-1.00833420853638306926940199787296e8,8.03890783601721467158433650741888e7,-5.72755599376425278206288460340491e7,3.55128937809771679241185184440344e7,-1.76442278996533607623199248826080e7,4.94501755155542945215632697547358e6};
+initializer_list<long double> lc={0.0174158699793956314306931722758618L,0.0405828223135295227110687140771873L,0.0597693286281956389756963248928893L,0.0801772493513405787893486223011173L,0.0905213861102283190705016281421478L,0.105599557126505194297435789037581L,0.10379876562588526584725005066268L,0.112385527042457173405638227286032L,0.0968193951691977022134089239729061L,0.0997175778852083036599575880567704L,0.0702728163615292659426737665176524L,0.0708087222029501910067892235933769L,0.027800139389238001693871731910554L,0.031188938465933041534867603921217L,0.0123667407658761515986608397299306L,0.0582525344713895242476021481078417L,0.0250906796670779913692315958777532L,0.135264796213501201127221034678437L,0.0121632718976290553676641735897676L,0.209749023806753257923720297328897L,-0.0284425001817954859839649066304334L,0.274874637121962144102321330815785L,-0.097923986721466276967250403666431L,0.328304354372904476126691370988165L,-0.192115069164768582844236152642332L,0.360474535856847076807939629568476L,-0.256841257216424695712626061240306L,0.194564797278727404168829533805513L,-0.106155379954016426556548781834791L,0.47252557066557879446157469520686L,-0.78610084536466518438064261285964L,1.41922781381024562490222961330912L,-1.80456957388167113656816898840906L,2.60622518023725586553165951998857L,-3.0383092432789621793186454938899L,3.91456575347889998990884024150544L,-4.35594692961714429708549415442215L,5.13907065757639824994303362136671L,-5.37320525026796697532514040149367L,5.46882867439232349792256004674936L,-4.33512211650095871120939110804474L,1.86536503116980039117923643150268L,-2.22998694442142876859020084127654L,7.8843219382943152907053964665267L,-15.256145752824714373562984061175L,24.2167969752861711725531804824362L,-33.8456142426992641889194336747669L,44.4716041495194962866202542726408L,-54.9184108361756613498954146050185L,65.4637733167782262882082252107606L,-74.3955105783113488916017211564163L,81.0893631643183405506590833483088L,-82.250566932892773638422877432289L,74.4889169483526445563632436006678L,-52.62564740572753693121451665007L,19.0634597480976912620237551381617L,-31.2960446767777591971572419301672L,109.143050349545941829567185978054L,-212.297370526597025034930517747521L,333.088339142820806760329085654828L,-464.809075047493675214036678597823L,601.908568077669567002777980083043L,-736.141391768679555010947570275115L,858.276562007047843698334538014272L,-952.896613978757508067888350283951L,999.182259034772715215440167509475L,-965.49173361589987337744175008791L,816.039029363580798847798852287958L,-532.395591841736263347621990480493L,178.932389162324908849793644516073L,-332.656367877773791432950817287155L,1157.17023650862992683478173944583L,-2245.01584093130721684105276520862L,3503.53873376895132187553368271208L,-4857.1432859823029544635655800636L,6228.21887513745814683803958420511L,-7522.34921280290949601178553929799L,8619.15117615938838618969314438147L,-9355.27061607314854699560151436149L,9517.13241748333291659352498573446L,-8848.88588213386110505756730749332L,7136.48164142928079205820418143154L,-4431.40731448727343483447642832738L,1432.37588361707111036700479821698L,-2687.50363703463341025865669568569L,9333.06605092209189761778139564513L,-18054.3086846026925539142749941967L,28047.0547398697687537445181643623L,-38638.6965130071070057539434657693L,49121.9079535199536046308248047693L,-58663.5573834721591975979586273514L,66233.6078358445197425746909827414L,-70545.9393535923194373983473696804L,70080.0015781402938593264888448467L,-63314.0342447458330427706009781713L,49438.244012338236691458185062124L,-29748.4166416725735250849652789157L,9400.02026001809995159522503295665L,-16534.0532070552811862671967108189L,57336.7731611038400928856390105122L,-110623.835152070137179697378417336L,171168.471709278880707333451280719L,-234508.159776661374932481468534269L,295945.040460295416690165479567225L,-350072.814138324145710947253678674L,390474.435506982646077437562583992L,-409651.355524383357712789363773869L,399554.808175750444498010211375513L,-353417.508884690417501486721789392L,269808.986375708243720728413424706L,-159017.713524586130475979475644276L,49538.4788461257265849191344282938L,-77819.1884895521120780093027214419L,269532.546391286605304224119393199L,-518861.068970021692407048468206596L,800127.709832242063739824168302559L,-1091122.27195255797344355526052932L,1368575.1637255585951007247506437L,-1606282.41764199835892387477642803L,1774279.68060092711533012721109538L,-1839476.99520590991642665450108915L,1769301.66364166639927104921815251L,-1540841.76677199712627399575447083L,1157719.07814708421340924720473991L,-672767.892346390521622278549534841L,207637.418595847172965100158488861L,-281930.153102852529654264168139546L,975504.697159346932336103369269474L,-1874416.35105710003346249834115932L,2882527.17843199143582008858525166L,-3916022.09279820480714839442232757L,4887655.21828655002088534871696368L,-5701048.39850433848905814279105462L,6249426.71608817574909572326924519L,-6420324.86252383108001200173404509L,6111088.55047981882140215666889937L,-5261773.84310004935759364967307243L,3908874.33399453482821042168735425L,-2249422.89253402766591099509906214L,689863.656804304354167149914522441L,-791349.558389494458271179784235642L,2735963.31580742540615978491369992L,-5249430.03504368221872890476908101L,8055162.72315288962214165700819857L,-10910904.2190419639939399191118369L,13566083.6412171030393510788623453L,-15748276.977846458106119888753945L,17163279.4577677859311624565156274L,-17512806.4731192320389858004744081L,16541377.2554210645145317683380208L,-14125918.3608469431682163760213839L,10409997.6205909126888583503065036L,-5950098.43917427021260531781893321L,1816921.89315131540050502586343797L,-1731324.86042942031790981488052455L,5982207.19566154525422785823044366L,-11465391.8904275045045918802302759L,17564950.6862426183410627975394484L,-23739964.9730314841279209939344825L,29433952.7100053584368649533390669L,-34049285.1208282596014432988155771L,36952927.3572621821532203676729465L,-37521460.3822583678573775770586878L,35247245.8580372268057478991083365L,-29927909.9189531136518607745798301L,21933544.3628817482778256134417438L,-12478982.7275535894577338012303495L,3799493.61699171778477114799263903L,-2967133.39333160605984782059447855L,10248109.2058868052913821491569795L,-19626772.4880118735822756118422632L,30035138.6615423466786314785304354L,-40533925.7617453926222605858750977L,50160605.5711329086491662783505449L,-57890241.5780895037798535785375092L,62651511.357509092242381240514237L,-63410342.5648749753250170917744723L,59354599.9456499061190562242151916L,-50209853.7461042040243337655784255L,36667341.4538999568090458841925243L,-20800548.9105050898898526174490075L,6321514.21125907132556457535953691L,-3998160.30748944894414230886109963L,13806070.9483469861451981051394686L,-26430074.4712780212806507926477802L,40421983.3781301116463232746942775L,-54507267.159656973450341485810301L,67382768.0262578285373289576726247L,-77667375.8398879484888512165991905L,83928036.605654429621949891943588L,-84796854.5602057439822029405128125L,79221366.5499227818700912915756725L,-66882890.5452529952364452455342256L,48751518.1781504186879217041194552L,-27612846.8684577618293983361620206L,8383728.05890824105162527040314191L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<15,long double>(long double* c)
 {
-initializer_list<double> lc={-680785.069834758720415639474411158,2.38745017514326997821156485019113e6,-4.65242845102783325191599249552755e6,7.18772824115353931241763434588054e6,-9.66226249821410824458253083175810e6,1.17462296405987632516973122991197e7,1.37789899126168106269697181462184e7,-1.34934014106405088952114122707755e7,1.23525684346135037690721109504686e7,-1.04841651035296343301874978543171e7,8.09699168274748848706416690423373e6,-5.46603488809294897645502880592397e6,2.92027667637585868975528360430087e6,-856461.606004360269012387093190528,-1.31746947299013404376500165192919e7,-1.22718981403933245715089982849120e6,4.27596204942486666535054372202260e6,-8.25835967922397073027526852596492e6,1.26456344181557269130226932879279e7,-1.68734305251226192933017134229468e7,2.03976946972231258538251173123933e7,2.37606567237999486999063094555656e7,-2.32190704551220823157248587308745e7,2.12233017647467535144555313817502e7,-1.79929699448666385154758595826655e7,1.38848763613619443944534584549430e7,-9.36798691491976520179348825327132e6,5.00310847035691450118563647942716e6,-1.46703443282799299851273296871457e6,-2.27851922129251155872711371292940e7,-2.20822537577858885746591192674016e6,7.65653501604682955348130648570056e6,-1.46857701306731479110850533658352e7,2.23316166407327496307055988092532e7,-2.96228814970117506055545468178798e7,3.56491240969829818148060474619749e7,4.12916377298028744429132055821708e7,-4.02807386079817808432187736501364e7,3.67718964804530498872558942596485e7,-3.11460998432956095633038805325138e7,2.40188515835349572884236696670138e7,-1.61977145818397950280456999866121e7,8.64801332397198536611214972369892e6,-2.53540435929255628649979439096504e6,-3.96908401362790075248018816968537e7,-3.97468522270383835376285711756371e6,1.37295776593579597478309018469417e7,-2.61941612296241967339794595049323e7,3.96153134130023850589737271507331e7,-5.23058887064547926249941927014087e7,6.27209757323754209256444316621020e7,7.23171814515327168477259866243440e7,-7.04474715657072835932427386172234e7,6.42441952513842622155014132252580e7,-5.43738993333094748707343041376327e7,4.19082289480392299146804519405050e7,-2.82509770902523654710545515199781e7,1.50795369368951004230778543672086e7,-4.42039985884800813428656347880730e6,-6.96475261296290902737270102419868e7,-7.16688109722111121050255829396986e6,2.46847442017865582130097090762103e7,-4.69010233458148165339409757566873e7,7.06308690063659824819999617115105e7,-9.29163426391210714730876980233316e7,1.11100892421312331071205416347470e8,1.27630876996854387000059043484699e8,-1.24189133786089696397270357348326e8,1.13157710655561305435949814131901e8,-9.57125114822049662479908807633777e7,7.37360924462833895651264583823883e7,-4.96908620795507845441410923323230e7,2.65180898213500196656557678134748e7,-7.77264307564290584493625131034868e6,-1.23109877837792356270281881636252e8,-1.29591061971905330596309120020440e7,4.45356437203252486057225148773231e7,-8.43479458028187792882790810157900e7,1.26604525893048729549081093965412e8,-1.66073452145038327117102407441377e8,1.98129438142640549942608287778503e8,2.26942726632100691293199612103459e8,-2.20618328876755881671010876290757e8,2.00881957478558658574691766561974e8,-1.69824958433226615377492987087627e8,1.30782642203381553665045637544399e8,-8.81115996928667444443768343901454e7,4.70138545754922394471266501202381e7,-1.37788762614802068238751277803663e7,-2.19176521063409338771110792319522e8,-2.35147268966403254388549242444240e7,8.06734675730673144655148223649928e7,-1.52414826809378248276023061870669e8,2.28184490215900973866004753357739e8,-2.98650369871108429028177226743636e8,3.55666306844077641400132185776309e8,4.06437746752981128146950255134935e8,-3.94812834946508555334528022186123e8,3.59287819255770731293055501452539e8,-3.03611008999867729375941301671829e8,2.33738977670215623234524198230525e8,-1.57441928495429209844426246429358e8,8.39949558184132631839177748389810e7,-2.46155519313138549936845201368383e7,-3.92922516031210216192929605290122e8,-4.28363948569095840821763502854111e7,1.46769088385298966313232915138583e8,-2.76762234481618911202302613954065e8,4.13524854970564392231615263869989e8,-5.40279839475180684417750210160146e8,6.42528862770479737731849493478848e8,7.32871505653103270583372071525007e8,-7.11467346772302772606417297242682e8,6.47141950448958685198052227758744e8,-5.46662422233305061804549461273077e8,4.20746023239141529334726628553226e8,-2.83355339180254541871496140977655e8,1.51152293650119756255141239884707e8,-4.42940339332636544709915517080676e7,-7.09076968053699702778970177668368e8,-7.83595351119870976628802263636458e7,2.68211540266987844693232014012035e8,-5.05028172019709042801577660868361e8,7.53427665039090517625267406168017e8,-9.83026768826167387466944469375027e8,1.16777718927268316334243529749965e9,1.32994165737877802793662044780206e9,-1.29042839517008679983453936736687e9,1.17328538400367024301077769534605e9,-9.90812476592693751699152883641692e8,7.62424670030519799556467947168414e8,-5.13384977185986242638499579106025e8,2.73832863129047337552916699321164e8,-8.02407237556163696924268149086025e7,-1.28761992034126917212513504636041e9,-1.43947470709756941524794385682573e8,4.92328971347832618213587510026268e8,-9.25987857856753248708644801561868e8,1.37978777590095130005621977651638e9,-1.79833318952830649433658806340676e9,2.13442989774296503623669650465527e9,2.42776911974335564535819798502547e9,-2.35459415228875240396965800582770e9,2.14010519536344110142844914969343e9,-1.80679672675823614568802756299126e9,1.39005942938840861659509161787158e9,-9.35889883658051646782125092206517e8,4.99152531258973034955249614860724e8,-1.46259878073335513246282776957868e8,-2.35182376176656639118834979116430e9,-2.65535342587568046226359459973842e8,9.07646460040234877575524074211406e8,-1.70564667598858223692042297838629e9,2.53916346324380667181469134914878e9,-3.30657703420111658340390044144226e9,3.92174530049047927775350172534451e9,4.45597570253239351808522194200609e9,-4.31999636794063341830478059902708e9,3.92527482465604246028361038005952e9,-3.31317937667139658544089226015657e9,2.54858406421151240942889285431077e9,-1.71571112093166815193507950176966e9,9.15007828737768311758547858392052e8,-2.68103660654951880076546043611482e8,-4.31864806483922428259297344968248e9,-4.91788906000710439528483280348470e8,1.68025112229538424047795691794863e9,-3.15538247875337117426849822674240e9,4.69389041210235490876870599947953e9,-6.10832505372102735862135419667281e9,7.24043205156329605237434787339999e9,8.21915854024029991810100948941526e9,-7.96559014111108944043157683768021e9,7.23579818864099724370833998520485e9,-6.10623794411926641185466845428263e9,4.69642439348761701865431869728092e9,-3.16135994399963850315123675174904e9,1.68590104013315455770762799950928e9,-4.93968256597486353215625018711004e8,-7.96920302407097491589180187734256e9,-9.14272692980798144180138885854272e8,3.12259294477746104131312535704761e9,-5.86084234156001860553806244827222e9,8.71329842914763072898369741435482e9,-1.13324718835685394941184586788469e10,1.34259897160001423302871270737259e10,1.52283426195774437898323844675542e10,-1.47539056842114639216953490410655e10,1.33988894453628994489082283393395e10,-1.13052092293983642567929463832473e10,8.69401855769279430580908791222406e9,-5.85188323083149226166909940256737e9,3.12058743193370639568322656589848e9,-9.14313711211743903425122984126065e8,-1.47708203706465095329191136844035e10,-1.70567381593365751816664357303396e9,5.82386506847402344154236329979597e9,-1.09261598409224067343280959649247e10,1.62359123471047713601060311250939e10,-2.11061245080149772841054030442193e10,2.49940184559617196825603107666041e10,2.83281091115463344790407637441763e10,-2.74376388043934298223465557916600e10,2.49121921253414162081659291782743e10,-2.10161778872189664520676134467800e10,1.61604157802914877720175387895460e10,-1.08768488092370725436985210493222e10,5.80004611747160661643881676509714e9,-1.69935901183106346138994622864673e9,-2.74865763285621134189303540120447e10,-3.19234560993505071744889627658065e9,1.08974200340731832037006320880666e10,-2.04373051643812628752868603796256e10,3.03564774093214910301827602583364e10,-3.94456259821766761713733878958985e10,4.66929222811893130067032089309275e10,5.28848797928288206491158327714146e10,-5.12088668190242420564329942449373e10,4.64861407715394628813370703710896e10,-3.92109008767107684574246628807433e10,3.01488809662550024533771873615455e10,-2.02910492875049441349803738701300e10,1.08199639889398063533074684482629e10,-3.17013205584385266813824024658297e9,-5.13304594484973530905703221031331e10};
+initializer_list<long double> lc={0.0154869450193167023500833717209852L,0.0347966764785355318549368480329669L,0.0543388096510083689765544888248164L,0.0685770443528485699346731002859042L,0.0848579111653022593758369097508605L,0.0907815795383537674968215362392507L,0.0976584348866993124517635147944232L,0.10361439156531233465043426694345L,0.0878246928075498436333789234893742L,0.0893708494345270992004385098092286L,0.0623824251937336288373625760786747L,0.0624499412399507649079899936373081L,0.0243948537951256828890939917856914L,0.0273197077614521375762219088531981L,0.102149478100041281619627200460561L,0.0193981714812099584071183642725061L,0.0211067581595321269384689088278857L,0.0812147734016623301141616807823383L,0.0258665576625638579576242094470549L,0.145641243387526741972623529055611L,0.00994444767136215468553147558678894L,-0.0286555841466182232167374492189037L,0.255223732063502253724668451118363L,-0.0907184156546528503369183057576535L,0.296190289457875744891734070342999L,-0.172683442046585741548980623898448L,0.320077777512962631288309759341225L,-0.227454600162839956356144809992447L,0.171351790248598479487707427156182L,0.204859804763547539836953839081394L,0.11368842986708259873402585533125L,-0.308613981193017107824369934470719L,0.727375257813943516108082822490209L,-0.998172389124787087616820476829332L,1.59721297186962217800471317997565L,-1.90974051079655838856568297392234L,-2.97167478571669483352920550482216L,3.73060305486499643577796354389709L,-4.08449365511804195024511836719309L,4.74737005774694525706071798627405L,-4.91675159778169040577300801088888L,4.96016241074329084725891390972426L,-3.90907825775496795972698551744942L,1.67315939063792175565197540515955L,2.62485031223674153658447392233678L,1.88580900253093878361396655114897L,-6.49778495123396098437547963412245L,12.828134128011304657886278616858L,-20.1064705369167713609061429113167L,28.5432442006493521060645979733523L,-37.2891865469350535959879714743264L,-55.9313057238696354711469531463395L,65.0558983076782470462013788185943L,-72.5935844685481143635014092880242L,77.9823140841539920358662294757071L,-78.2142130947997093845535569555197L,70.1772214122543311104267368297104L,-49.2190188212640522182059376189894L,17.7350553400107355862713233241533L,46.7816788025983110286388464118071L,27.9098377517754591402830895894294L,-97.2596598638625198804594321224946L,189.815551125285219596575144887665L,-298.461811011544000193532867992753L,418.826309288299638884339914665087L,-545.68946396082327072771408547201L,-797.940752576250410377248373746137L,907.353425468146675320822286260323L,-988.163392576820182697769296746732L,1020.40163032340346989937642983268L,-973.849431154567663626879897152299L,814.73906935677419523377100853509L,-527.270999228228294390799265342945L,176.266288211543401551490191335049L,674.537912760564012843976540101426L,324.059353367123777403974597268982L,-1128.6276980324140277698631575719L,2195.60898521404155951684715603775L,-3440.15901853179208339385118212757L,4798.46389611808612192589588380578L,-6206.27696884675524791643653081923L,-8861.18003004179452869270760415856L,9894.48975249218212218719649166761L,-10524.767899238272141570959665283L,10533.9297486363477341328568460323L,-9664.01402688642734409872323995029L,7708.39741934490292399641297142775L,-4745.68834292279959114504038630258L,1525.71511789219256291918500131342L,7591.35263576183938082026421497406L,20375.3374178553975523514611918219L,-70785.1120715013878825120896394538L,137038.62879175858596505543605034L,-213177.771685122817876412067209668L,294358.796797329751977701047044678L,-375652.010664281449393760109325379L,-515294.502249172738683228193717704L,559135.10131245940916981681080414L,-573806.954444953602804825753152564L,549618.907715129344010004073488938L,-478886.934050045383231570373011397L,361128.693780810763405839187726645L,-210876.326212495653042635221579338L,65329.6658016080765567060172489535L,451495.979760621704277469774079988L,110499.916857196721073965166853283L,-383466.71031418505122127238417872L,740898.901636714353856677680303029L,-1149091.68456520394598378919898957L,1580150.35097157429449793367284587L,-2005654.8359702398486813870101579L,-2708763.56880501024343682791849777L,2908201.82848946984802581448334682L,-2946765.35136763793593806735275741L,2781148.19582519389587123880616617L,-2384093.32684987061784812889940103L,1768448.03489813220790575433696413L,-1017870.02042487328003243261874863L,312365.408664412633069601063268369L,2393994.46155137396755818132329749L,467718.680215139478567807765207797L,-1621617.89097922054593645517815792L,3127815.31916065842616096427226353L,-4838766.058550451553813330024939L,6630914.82591260602196353480279498L,-8378630.01237972234949815159296174L,-11172933.7155909569793149781856494L,11894393.9858366304201907995897869L,-11932764.3315317169254901877229892L,11135847.1465056785505233877101148L,-9431327.03396404088225473489787705L,6913219.3661473569999198459273796L,-3939018.83592911290843120598430574L,1200990.96363052308097655746082468L,9944159.28859230270521783100711144L,1553616.42404633949494766486029522L,-5382402.45868455858586787011227457L,10367191.0341222706072290989506174L,-16004841.0495776597746610009495698L,21870747.7032009437931837430441074L,-27534583.8349539852336366836989128L,-36347405.6771096834327833090597097L,38439005.7629011798001304459439825L,-38268877.1864589368917625636038651L,35410431.8128623750083302902520158L,-29723410.7333955233922637228043878L,21600808.8569020862311051268357179L,-12219714.0831280397465376869431752L,3708881.58781215515940986018652573L,32530553.6269471232674460308672464L,4072208.79620974924203906909434938L,-14099364.3501256613911866249047681L,27127108.0880390649974628864248832L,-41810079.6329303380387029471014313L,57007183.9342349237902109517671901L,-71565967.1510015634791911945169941L,-93735971.3156387866527486747633086L,98631965.8595446476272329634809752L,-97632445.6969186291947342158997549L,89772380.8093880840892767486076076L,-74865172.6581101583233636074138176L,54071624.0456833269188212550437486L,-30433707.0081207235948076016227858L,9207838.92484741626777175044155134L,84252399.2171075134220042650706479L,8464554.53624971320210832553394914L,-29293847.3602025826438702107447061L,56314485.9802012358668998187227509L,-86689203.9972065854474494438683506L,118003781.814440258535329923050169L,-147827416.587845477487832591076157L,-192513147.620062819072016821747617L,201828541.253952906274897851280636L,-198958084.569058701677406635642421L,182121195.782605187786178480331814L,-151183260.950060829222744744373629L,108723885.487027764896951417743269L,-60980235.9292955401310744225542938L,18409745.9433442012988729375799771L,173579008.140014559526369723864933L,14009987.2767972028467227591219537L,-48470293.5760090248514813540173638L,93126672.844081680930613702165079L,-143237582.581474020850490476683049L,194760678.449235142819191302507614L,-243635138.28806264675144421311003L,-316060616.96001313178862115968959L,330547395.091323869360181984017959L,-324954786.492119862714560544726221L,296579119.640783613980167347349302L,-245461539.833123287636986921184957L,176033542.038770140228587227217624L,-98510263.867413795258522183458067L,29698612.0367803128276792695064175L,285574216.189080503059316213137208L,18520473.0125206478132342115283241L,-64064297.7813418933539149111675607L,123049458.595642658079948557065869L,-189175054.468812404008712648433538L,257064090.467037756819004678028548L,-321322125.066545155390657508506229L,-415966587.038819033785895914406442L,434457864.665617455022013722956634L,-426475689.589787793480538604060674L,388618068.625559946758418318369431L,-321121911.501632983867725428561182L,229952248.138314054669475715832571L,-128530065.861470339096494573673654L,38720400.6045717026438319708509329L,376273129.193141640188255128421753L,2918.95739068146461205798480651873L,-10153.0774676073994887239382372187L,19701.1770372710568343940817188076L,-30752.674102194264252999102083885L,42666.5700069128994006066976896416L,-54794.5847026103563527833853358625L,-76571.627160170909496632130913139L,84175.8865485478639677539447960522L,-87781.4438422124693878643936915085L,85712.4134667229778772459278940561L,-76339.9086251301931952843500922122L,58915.6595599487120581358589786682L,-35135.7036001379779991667575774523L,11041.8353782663681982373465828495L,66397.9195146652285077610651505327L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<16,long double>(long double* c)
 {
-initializer_list<double> lc={1.35465586136337391900281724085720e8,-4.60681378644386487887601593772952e8,8.58568449225997832682178025409777e8,1.62980773270973641453271705140326e9,-1.91373075459200241155012678369982e9,2.09118614227476511733595116081119e9,-2.15005805360944102792070842260647e9,2.09102196956134013566894213456307e9,-1.92558853554248175112214812646667e9,1.67352394854122819317382764185891e9,-1.36020107464601806028832611356813e9,1.01435436480691009151354550549362e9,3.49584899423826116223953835347481e8,-1.26514772220659452690528051068934e9,-6.66637158937146244809428227231107e8,-1.01468413496771250043602267236614e8,2.13698102776088093102068660799828e8,-7.26651643725632218446143588957117e8,1.35400497598124126723163176832037e9,2.56884012864949079504936425309200e9,-3.01529366070543441468830308377036e9,3.29366429732966960126439914579969e9,-3.38510199896387421751648681176189e9,3.29093246868170466804924787798564e9,-3.02951042107920902295667436712553e9,2.63211004982918810348222158226231e9,-2.13873281272469159670876550910865e9,1.59457537089069805630466550391776e9,5.49388050833458226665432022937496e8,-1.99469441956459511222788101258213e9,-1.04777723912036782956698488667852e9,-1.59451248582420824011235117577176e8,3.46179119632867422180361892421379e8,-1.17700185017008697081301055775435e9,2.19273022556746252397254266645035e9,4.15757248555689025008358777852561e9,-4.87830966579960689466631515614827e9,5.32653734381584282987804801012083e9,-5.47217522280448760559629396267116e9,5.31782203070486394434035762705560e9,-4.89355244890849863842168778451261e9,4.25019022200676523612320885483864e9,-3.45249335639224360380912322534260e9,2.57344885137091979793774453797781e9,8.86360944215550505897410531842017e8,-3.22941047851843465008671486532367e9,-1.69066473638409420223747677415076e9,-2.57233463555048944287832531353201e8,5.74550352097123966490317496104936e8,-1.95322920656860278575451117520258e9,3.63807852891860964783365161250257e9,6.89373052502165243535062220123914e9,-8.08563814693808035476157014207225e9,8.82487707688357463693020080489212e9,-9.06230806320038789805912521008274e9,8.80302126900001059567728268232927e9,-8.09751909260216097761661351814071e9,7.03043156111107887506025238554071e9,-5.70916490931232484133173905374457e9,4.25446069345865902331058192014210e9,1.46485258112289369546657485307289e9,-5.35657887415311429504642910236961e9,-2.79447771840905246784522408141932e9,-4.25086576174537446598152390992177e8,9.74350531965399648673486895160017e8,-3.31198693789156486956133689529064e9,6.16761497062241239427037027146678e9,1.16794850684560995531332926186623e10,-1.36934172240668320329142423294719e10,1.49390267320388378279973984039555e10,-1.53343263602179146851662059439186e10,1.48892810876267542234066159031190e10,-1.36905440569801971249550807740509e10,1.18821135186836820226130106236059e10,-9.64601175244933638677916751161119e9,7.18632240660337806607026679908251e9,2.47347410659889856199754404325688e9,-9.07838500087137476824864565407325e9,-4.71927430280217558808508779772449e9,-7.17722787110710841393697038135016e8,1.68363922014979923355250012144451e9,-5.72230730910881338628620162021075e9,1.06539436457305440044304428759058e10,2.01624459762315877644928415037318e10,-2.36298331196368946463066509860859e10,2.57684480966715521912678004604370e10,-2.64389235702123098815177105870213e10,2.56607613941237459370375526806370e10,-2.35854238545739746079186248142472e10,2.04625562001404622897978310961085e10,-1.66064781922920821670660719103858e10,1.23686818860366106212148268851797e10,4.25574146871824866742651408982429e9,-1.56775672703677721966172668039817e10,-8.12090209574214146370064147860485e9,-1.23478247569652544992292596943630e9,2.95639463017022167804279124185411e9,-1.00469570232252270154846115651337e10,1.87019319741559276409937502125899e10,3.53713735800732417604294801682623e10,-4.14383398482399553659640868019392e10,4.51700815076961454669342550974257e10,-4.63258223869437976662935740888650e10,4.49437206598976949895417732939619e10,-4.12927048006168631631220764500189e10,3.58125546471211940486365444011457e10,-2.90548498810793334479105981735519e10,2.16348138448418583494311990487511e10,7.44146145894016621881345639152575e9,-2.75127845540867692898851482503563e10,-1.42019377534288192757231171850883e10,-2.15893605512744324979998181939147e9,5.26250596088382863972559969775324e9,-1.78820157069352342352547256350806e10,3.32800603954485044892262678778178e10,6.29058590822657732171314199065487e10,-7.36681671297085854353791765694255e10,8.02702972936204879978802472497388e10,-8.22904397739252557112708882974213e10,7.98032485587854402700157178692675e10,-7.32925370648378550505202258751760e10,6.35435727433751900219644818654459e10,-5.15375934115427657250097008484006e10,3.83663189492253977706619700051552e10,1.31920441352421336121270057662428e10,-4.89458676379515329967477445807620e10,-2.51802659679264751729285847065493e10,-3.82702042588865281266649200559407e9,9.47565036430903449640665785945322e9,-3.21948671848913610296358894484459e10,5.99064314843571740652132410237003e10,1.13170276042200029252856885256574e11,-1.32484717799703171531639852430712e11,1.44302499393943397971000718016006e11,-1.47875817260534326171352825233778e11,1.43350721830768467417306323818018e11,-1.31607205015484831587561504088862e11,1.14063450821080379111863443581742e11,-9.24852549527192292873645902077266e10,6.88324903560049336554445266216987e10,2.36601170172989736586014144059391e10,-8.80833748595017561920392325998345e10,-4.51670881409721173239982665410738e10,-6.86331209603907212105420324350209e9,1.72273590250514430799784071040663e10,-5.85264483575631486546433171245547e10,1.08883438463478578592329689603019e11,2.05581338087554129386881965253243e11,-2.40584938694816488729366701882097e11,2.61948904020391694197375057803596e11,-2.68333992994466946743589072609106e11,2.60025938266161633796276775969695e11,-2.38640001381177234205884008005390e11,2.06761920804096751298756009823921e11,-1.67600285203898629145930001818213e11,1.24708077425131338242926468690478e11,4.28533180055518198129945324690095e10,-1.60057445931818799762669078474389e11,-8.18171957682459101307551161794265e10,-1.24299857653248033167547417981923e10,3.15760688895882210232311092035000e10,-1.07262890123747067473050192246173e11,1.99519643417147285924522119350000e11,3.76514298828259568627938630150477e11,-4.40478056514774096893247323736062e11,4.79423779431057655464464639163514e11,-4.90932241172344318313226379903544e11,4.75562479272391469294284223711539e11,-4.36302030664672334673287212196292e11,3.77903264429747490970688017621934e11,-3.06244199181637611363413617880987e11,2.27819298485906332866534475739444e11,7.82621932380898963083888259899838e10,-2.93223157785053847250225304628886e11,-1.49439347908153424422177016959302e11,-2.26991026417088687863842085937837e10,5.82744182866121185237413753647345e10,-1.97938096311649591028306775784207e11,3.68125245178410352250250551137856e11,6.94346133516680423273414827373877e11,-8.12051159771349038486919924147219e11,8.83553153296300335165238777670035e11,-9.04449702225396765096183193685514e11,8.75834658131935830574279554145252e11,-8.03269018580641923822604919955700e11,6.95546285962339095525897011935226e11,-5.63509250312167449070680108206096e11,4.19112300516614172597797992326083e11,1.43935745017730938301449359870104e11,-5.40893277127645259415525823057143e11,-2.74873153282338733162107263965912e11,-4.17442822953457160346539119222824e10,1.08174897022043774913286819217461e11,-3.67400605899282814785510162318200e11,6.83186806881003286667446139847790e11,1.28799617450494569820119924796588e12,-1.50588800346528894251233324261117e12,1.63795687158529932084820192240820e12,-1.67614079972666936202694987964882e12,1.62258031463885973255229434671086e12,-1.48768237169146738063542139692607e12,1.28781100997480481543659027712950e12,-1.04308452491538952171934709223484e12,7.75638475396162988558284058656091e11,2.66304976097499642959649999835576e11,-1.00360632572114631043108723233254e12,-5.08617894321550326460552733481756e11,-7.72290003597422071278287698319203e10,2.01805253626465064381466294889615e11,-6.85345516813585467883937519823857e11,1.27422371708031566412290390870519e12,2.40118080284000218343044217113823e12,-2.80659308193092434626324973666100e12,3.05179823944878247369561231758514e12,-3.12195241811468291255503432087730e12,3.02124483787884063649787683687501e12,-2.76924006275222852695470862187051e12,2.39653853871372854702821295987993e12,-1.94065559347154342384697985197274e12,1.44278749072165805433202804535348e12,4.95231982313350082869824911346474e11,-1.87146535130246210704964047871247e12,-9.45949168472138123493071668835338e11,-1.43609669765500883728244171793124e11,3.78085907103031653818728155860857e11,-1.28390527785669622145796474457798e12,2.38675847070303124394510000933157e12,4.49573191722506532847975381049802e12,-5.25335570894090752107205676158958e12,5.71064800265115961080076962954542e12,-5.84014964178037905034669307091516e12,5.65006034047515201420659947896795e12,-5.17730348572118309323158345172440e12,4.47933981801193598842710187260520e12,-3.62642590597336915425893963137719e12,2.69556698932695389456710812495211e12,9.25011744460729384465661449729955e11,-3.50477943848595192894071681087866e12,-1.76706004392648546320388881630852e12,-2.68223687272014518817131952143896e11,7.10965349508295549690815343928992e11,-2.41411433735432732830550508129189e12,4.48719912799502667824377591195344e12,8.44866336634231526657628551693527e12,-9.86986304382097783357418124210916e12,1.07259835049051542222792229295468e13,-1.09660216164093621653132163886639e13,1.06060289636498706211628516006678e13,-9.71592200995287362219538694348032e12,8.40398658134252900492184533167933e12,-6.80228297274856186883108458943108e12,5.05529595199178494848567152044560e12,1.73435763137283681440950207903501e12,-6.58790428096974039978572929006612e12,-3.31349220653666687252507413684109e12,-5.02880009315234999769261500204813e11};
+initializer_list<long double> lc={0.0134902209777615546928857850345981L,0.0314279629951824571654827355119911L,0.0469873733079429458666402319428444L,0.0734547857533043094067218881208001L,0.0863693918254083886359991394800481L,0.0890178071285127236164968634241197L,0.0975477126653731910543608072690555L,0.0913143081988729873364578487343849L,0.0953607662004949410710941168426104L,0.0797941749996627884527309014396922L,0.0804155398351338833169827556545343L,0.0556981153764456892398509437563906L,0.0215756265895184880769650340393217L,0.0632564400077259263278134786590519L,0.0554622987341079963370658862746589L,0.0241270079087267631043744970907316L,0.0104155520313118903445611651733061L,0.0421911438622431849044125333569927L,0.0258525969066147136896289140566798L,0.0256254787501219415117735716163832L,0.150002317804577593948539364859572L,0.00813628998446800016665465903718203L,0.197055438658690702608191468586676L,-0.0281810370330493689170612216319687L,0.236225846046013615009800230605291L,-0.0838260077453458936216054537697682L,0.267960334392693434420180821343249L,-0.155765333785017525388363036922708L,-0.202695621772206622927513247212677L,0.0968529828342800279162661168409564L,0.285856805797583099642470013914301L,0.152005701730404918653069892379229L,-0.0653713376999448705369583829618577L,0.307294036540076148545471916779882L,-0.493985968495464789168591461831771L,-1.14470357745165178782422310989853L,1.70043564961898856113956922269285L,-1.95108712992003212224561222853427L,2.58804720929326144549111842851682L,-2.86689986399994767719806939492182L,3.52786775445603385005347168691683L,-3.81373965736643694238437364212646L,4.38010995449944330847413959941386L,-4.5016959760838046610267411364607L,-3.5363936854026107833264827123269L,0.921440256457842158051759609026745L,4.50879936970458113742867436871288L,1.50706736465575115258661328814626L,-24.6657301146237929877697621996598L,86.1817045027888068592853823211435L,-168.236204899845183108876081108955L,-373.441382816493373029546191645538L,489.304692651204969716129234646023L,-608.671094569978257639454534737124L,727.727514055202494926638378338626L,-839.694251197893918192225918737011L,936.616377462601794663550012014033L,-1004.6660333126269089331622860377L,1024.77872737830999732404449651593L,-968.237138827915539935403316404624L,-516.433159972726808912184967309492L,265.434547547872619694086376795903L,803.303986914590144675668304275129L,171.888507077331633004997537391297L,-309.634526623075306854178652539684L,1079.68800541371710461211605427578L,-2104.34412085771012638538909783779L,-4633.9170924328732035241660426793L,6031.86900480969531758217346535336L,-7443.95538188348979194092614181583L,8801.82580751819807219366620482214L,-10014.8963730262748891093920622114L,10962.0676139265928359134392885497L,-11475.7614176367137468804906451298L,11336.4924494640186328497012413153L,-10287.7205240168730099129557996234L,-4971.52511999643335612311308855976L,3307.61998012851996768468309845046L,8132.18181521138666141887918046639L,1591.28087161248622478278178744244L,-3066.7759919124081420394072779116L,10680.8335819876280415797887291965L,-20774.1351400782291544188780789684L,-45397.1178908667974886774406131919L,58741.0540382806537405480402547658L,-71934.5343640372424166767478870596L,84207.884399190552763981385791387L,-94594.3496831367343091409935559432L,101861.415867479925804018434111241L,-104461.238383421932331533206948528L,100594.622952465445626275623558874L,-88560.7324268511237876366672908476L,-40077.7637726854264665753020601133L,32547.292179348288300924678665859L,67696.0374787591183096026516138596L,12538.8663537028918803114257571307L,-23920.3926365912164505832816262852L,83219.2875466966444604433183446755L,-161542.355128963400825365207284599L,-350530.171579421643165929067838301L,451117.358218552182751547108883323L,-548605.010182238703005354106531638L,636549.829525179244074530507346221L,-707170.548605885708110766101829L,751082.307122328762398276921421441L,-757420.763621166149210997828895429L,714978.664146321039989255712205211L,-615381.713818484619117642476131142L,-266254.139140391115369672972421637L,252341.279672878292248914798029456L,459424.648385544170816734439180178L,82113.1725893872996978881444878577L,-147059.628816562928788176067475272L,511128.809572384153687646321470413L,-990428.374293658459161636709991645L,-2135658.31882445462549273584324648L,2735451.41045676257224843216503205L,-3306480.63156054914502927981974816L,3807537.05877252684981681067062468L,-4190601.33068117599815410192498719L,4400647.22033996532057014851957522L,-4378475.07499855470009578367276835L,4069719.95624418976046974542290563L,-3444219.99701987240104975537313806L,-1443884.31058700388915690310168399L,1543025.33835793985032882744478132L,2528237.22109668601941713583348378L,441062.199447632539208346227825714L,-714824.615809461091913758602973174L,2482394.00882840661514685865512065L,-4802777.00852231277784392342582478L,-10300048.0889698590552305352435219L,13139133.1812503705137329266471043L,-15800508.2738135997617223527381383L,18079680.2231937896481000380199496L,-19745839.6059916890330879206887412L,20546204.2872860527752127835029595L,-20226136.7530778006234599353154665L,18577012.4224926566004568834046464L,-15524325.9116465995633827354103828L,-6362337.64160427888551494941742391L,7465221.86912415690920455795499683L,11256439.0804710798083693822414079L,1930714.46759086331156213703151756L,-2759131.07675456888128879841315446L,9574870.55875139065346506833938742L,-18500598.437440491368469649516459L,-39495096.1923454929457615195188472L,50210302.785194373632322194557082L,-60124074.4311844675618172287755002L,68439615.2696064990578615521648792L,-74282043.8949315833786108885169861L,76729869.7283766331545001457805243L,-74907361.6528662176181689569173871L,68173169.4342992365307164203209309L,-56432508.5365378062131943526577433L,-22749874.0261605060198513399425582L,28700643.0730368720094623818635696L,40550722.7951948495730905550635333L,6871496.33276966820435810933993843L,-8497625.16981641543814580910686163L,29471487.4721889078997949519456554L,-56883564.389216165470121350930165L,-120980602.259859993715462425745154L,153378479.917537948455610230313987L,-183032340.660954160832833573419879L,207480804.493325970902358172636117L,-224082861.369776703533872010287559L,230146369.069878552443385728526284L,-223238582.180160374726237551836406L,201761599.61548612835618581532616L,-165834362.296836525107096368208083L,-66054237.6360703146451735056739072L,88104843.5162361034091777126663116L,118375850.285025886847422247877349L,19884743.4019492773563296101394883L,-20980096.6994467175159426533594862L,72729170.6655503126098606624530492L,-140256257.942843350020662535737939L,-297416905.262703629662190762374209L,376245864.364738125291285884877382L,-447785903.969452531978945857684619L,505961986.240574628628457946407685L,-544375304.919324915630249507789142L,556673364.651590187933176783344831L,-537351897.842330999780318977577624L,483146167.341148258167127946709869L,-395046860.853888261308015599058898L,-155990013.222193995376867881781981L,216963769.789043581434615398199855L,280636140.20976893344141225880007L,46846779.3274725779447584115187082L,-66936838.2722942588617835391585342L,231904548.171185105440498281373987L,-446739494.859080603831664124565985L,-943803948.078646824053179153476497L,1190720384.50436021984506596296523L,-1412409571.54593095363396216338575L,1589556758.05469586055842637307062L,-1702294261.69607841417963698507285L,1731560161.98547413882756365389885L,-1661742878.86093259123391699770177L,1484943191.77918783850312598608018L,-1206750740.66084056447709829510617L,-471731994.730148703781388575414218L,689968300.480172000856586566775172L,852471948.262551245986260452876117L,141284437.438614015571718844880602L,-1.54802321059089708742942901292334L,5.48846374473792911383978182077036L,-10.6348521786169909394903793591519L,-23.8181559150436853262299696200473L,31.5709233469585431640684161022528L,-39.4120913453794049553180072081563L,47.8342828508167114062451045338847L,-55.8253652163597984178423082698869L,63.7195744948158109033791093143642L,-70.0882767419069828319552438971568L,74.4203999789014843254020100671377L,-73.9645515445087855433830409536484L,-45.9159851823877100847011080954632L,16.9614830260572478858734711747158L,65.8615709721192041418657359401115L,16.4729007162098227287283068657732L,-41697253.5017956878225020606263126L,144495997.52220039264048347001927L,-278477997.81898119060824185321617L,-589213471.490983209170574491707729L,744177939.291513526827707913726558L,-883917523.435468413020619065443042L,996378571.298225904136161284683013L,-1069042083.09018866987586681856312L,1089727989.45620912323655784986747L,-1048225183.07152110624173706200609L,938995415.884092771521667682336218L,-764936807.691755480601561282975903L,-300210159.315238704097199185774427L,430373303.063877221619146054840529L,541561630.932572111198853680551644L,90009633.9000570114516397562283209L,-87011219.2017913504180854832107153L,301412944.836952957835803241918679L,-580500275.594049056741928648187024L,-1225378680.93541619925683715895926L,1545031076.06157884618481344916177L,-1831337459.16643546166456587959586L,2059221161.60305526088332176389734L,-2203025012.38544882850621267990325L,2238322462.10980866910963490818849L,-2145370224.21022861193130683123683L,1914587738.2465132279941257501652L,-1553877495.35593863782328734497573L,-606142008.159184685051531708620142L,896238209.851561278845092915824472L,1096391674.30744454926670396058512L,181437109.986278508770084711245817L};
 copy(lc.begin(),lc.end(),c);
 
 }
-- 
2.43.0


From f58ff52eec95927b5d0bc7ca6a776513fc541c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:48 +0000
Subject: [PATCH 40/43] fix: Hessenberg: dechc: product with an imaginary
 number

---
 common/include/Hessenberg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/Hessenberg.hpp b/common/include/Hessenberg.hpp
index 819eb35..6d1816c 100644
--- a/common/include/Hessenberg.hpp
+++ b/common/include/Hessenberg.hpp
@@ -167,7 +167,7 @@ template<int n> int dechc(fortranArray<n>& Ar,fortranArray<n>& Ai,int ip[])
 		else if(tr==0.0)
 		  for(int i=kp1;i<=na;i++)
 		    {
-		      double prodr=-Ai(i,k)*ti,  prodi=Ar(i,k)*tr;
+		      double prodr=-Ai(i,k)*ti,  prodi=Ar(i,k)*ti;
 		      Ar(i,j)+=prodr;           Ai(i,j)+=prodi;
 		    }
 		else
-- 
2.43.0


From 733df58704fffcf9097c187ff07189173fc26e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 41/43] fix: fortranArray: the copy constructor does not
 compile with ALIGN_BLOCKED

---
 common/include/fortranArray.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/common/include/fortranArray.hpp b/common/include/fortranArray.hpp
index 91406d4..50addad 100644
--- a/common/include/fortranArray.hpp
+++ b/common/include/fortranArray.hpp
@@ -27,8 +27,6 @@ public:
   fortranArray(const fortranArray<n>& AA )
   {
     x=allocDoubleArray(n2);
-    ASSUME_ALIGNED(x);ASSUME_ALIGNED(AA.x);
-#include "Ivdep.hpp"
     for(int i=0;i<n*n;i++)
       x[i]=AA.x[i];
   }
-- 
2.43.0


From 6ece6ca6b03c0c9dd2373cbcb848490f2cac8ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 42/43] fix: arrays: copies and assignments share the memory of
 the original, which is freed twice

---
 common/include/fortranArray.hpp                   |  7 +++++++
 common/include/fortranComplexArray.hpp            | 14 ++++++++++++++
 common/include/fortranRectangularArray.hpp        | 14 ++++++++++++++
 common/include/fortranRectangularComplexArray.hpp | 14 ++++++++++++++
 4 files changed, 49 insertions(+)

diff --git a/common/include/fortranArray.hpp b/common/include/fortranArray.hpp
index 50addad..4e789d7 100644
--- a/common/include/fortranArray.hpp
+++ b/common/include/fortranArray.hpp
@@ -30,6 +30,13 @@ public:
     for(int i=0;i<n*n;i++)
       x[i]=AA.x[i];
   }
+  //! assignment (of the values: each array keeps its own memory).
+  inline fortranArray<n>& operator=(const fortranArray<n>& AA)
+  {
+    for(int i=0;i<n*n;i++)
+      x[i]=AA.x[i];
+    return *this;
+  }
   //! destructor
   ~fortranArray()
   {
diff --git a/common/include/fortranComplexArray.hpp b/common/include/fortranComplexArray.hpp
index c74a6be..c6c38c1 100644
--- a/common/include/fortranComplexArray.hpp
+++ b/common/include/fortranComplexArray.hpp
@@ -31,6 +31,20 @@ namespace odes{
 // #endif
       x=allocDoubleArray(size);
     }
+    //! constructor (copy).
+    fortranComplexArray(const fortranComplexArray<n>& AA)
+    {
+      x=allocDoubleArray(size);
+      for(int i=0;i<size;i++)
+        x[i]=AA.x[i];
+    }
+    //! assignment (of the values: each array keeps its own memory).
+    inline fortranComplexArray<n>& operator=(const fortranComplexArray<n>& AA)
+    {
+      for(int i=0;i<size;i++)
+        x[i]=AA.x[i];
+      return *this;
+    }
     //! destructor
     ~fortranComplexArray()
     {
diff --git a/common/include/fortranRectangularArray.hpp b/common/include/fortranRectangularArray.hpp
index a47fdf7..59fd89f 100644
--- a/common/include/fortranRectangularArray.hpp
+++ b/common/include/fortranRectangularArray.hpp
@@ -38,6 +38,20 @@ public:
 //     x=new double[size];
 // #endif
   }
+  //! constructor (copy).
+  fortranRectangularArray(const fortranRectangularArray<n,kl,ku>& AA)
+  {
+    x=allocDoubleArray(size);
+    for(int i=0;i<size;i++)
+      x[i]=AA.x[i];
+  }
+  //! assignment (of the values: each array keeps its own memory).
+  inline fortranRectangularArray<n,kl,ku>& operator=(const fortranRectangularArray<n,kl,ku>& AA)
+  {
+    for(int i=0;i<size;i++)
+      x[i]=AA.x[i];
+    return *this;
+  }
   //! destructor
   ~fortranRectangularArray()
   {
diff --git a/common/include/fortranRectangularComplexArray.hpp b/common/include/fortranRectangularComplexArray.hpp
index 29879a1..59064fb 100644
--- a/common/include/fortranRectangularComplexArray.hpp
+++ b/common/include/fortranRectangularComplexArray.hpp
@@ -39,6 +39,20 @@ namespace odes{
 // #endif
       x=allocDoubleArray(size);
     }
+    //! constructor (copy).
+    fortranRectangularComplexArray(const fortranRectangularComplexArray<n,kl,ku>& AA)
+    {
+      x=allocDoubleArray(size);
+      for(int i=0;i<size;i++)
+        x[i]=AA.x[i];
+    }
+    //! assignment (of the values: each array keeps its own memory).
+    inline fortranRectangularComplexArray<n,kl,ku>& operator=(const fortranRectangularComplexArray<n,kl,ku>& AA)
+    {
+      for(int i=0;i<size;i++)
+        x[i]=AA.x[i];
+      return *this;
+    }
     //! destructor
     ~fortranRectangularComplexArray()
     {
-- 
2.43.0


From df6a31870651530e926d0efb5d66bbf2fcb754dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:54 +0000
Subject: [PATCH 43/43] fix: Rodas: rejected steps and the change of step which
 follows are not logged

---
 Rodas-NG/include/Rodascc.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 240b75b..9ad0618 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -466,7 +466,10 @@ namespace odes
 		{
 		  reject=true;
 		  last=false;
-		  h=hnew;
+#ifdef LOGRODAS
+		  Logger.put(x,nstep,rejectedStep,h);
+#endif
+		  seth(x,hnew);
 		  if(naccpt) ++nrejct;
 		}
 	    }
-- 
2.43.0

