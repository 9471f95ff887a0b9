From 825b1f7cf44e14fbac15c56914a5f56086f31cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:08 +0000
Subject: [PATCH 01/12] fix: Hashin-Shtrikman bounds for phases of equal moduli
 and for a fluid phase

The reciprocal form raised ZeroDivisionError for equal bulk or shear moduli and
for a soft phase without shear stiffness; multiply the fractions out.
---
 rockphypy/EM.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index eb34cc6..7c568ce 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -124,15 +124,17 @@ class EM:
         """        
 
         if bound == 'upper':
-            K=K1+ (1-f)/( (K2-K1)**-1 + f*(K1+4*G1/3)**-1 )
+            Lk= K1+4*G1/3
+            K= K1+ (1-f)*(K2-K1)*Lk/( Lk + f*(K2-K1) )
 
-            Temp = (K1+2*G1)/(5*G1 *(K1+4*G1/3))
-            G=G1+(1-f)/( (G2-G1)**-1 + 2*f*Temp)
+            Lg= 5*G1*Lk
+            G= G1+ (1-f)*(G2-G1)*Lg/( Lg + 2*f*(G2-G1)*(K1+2*G1) )
         else:
-            K=K2+ f/( (K1-K2)**-1 + (1-f)*(K2+4*G2/3)**-1 )
+            Lk= K2+4*G2/3
+            K= K2+ f*(K1-K2)*Lk/( Lk + (1-f)*(K1-K2) )
 
-            Temp = (K2+2*G2)/(5*G2 *(K2+4*G2/3))
-            G=G2+f/( (G1-G2)**-1 + 2*(1-f)*Temp)
+            Lg= 5*G2*Lk
+            G= G2+ f*(G1-G2)*Lg/( Lg + 2*(1-f)*(G1-G2)*(K2+2*G2) )
         return K, G
 
     @staticmethod
-- 
2.43.0


From da5299206fb4da7967588ed883e5176d577b5522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:26 +0000
Subject: [PATCH 02/12] fix: PQ_vectorize no longer overwrites the caller's
 aspect ratios

alpha_ was an alias of the argument, so aspect ratios of 1 were replaced by
0.999 in the caller's array and the closed form for spheres was never used.
---
 rockphypy/EM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 7c568ce..5b935cc 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -494,7 +494,7 @@ class EM:
         P = np.empty(dim)
         Q = np.empty(dim)
         theta = np.empty(dim)
-        alpha_ = alpha # copy and modfiy
+        alpha_ = np.array(alpha, dtype=float) # copy and modfiy
         alpha_[alpha==1]=0.999 # when alpha_ is 1, the f is nan
 
         theta[alpha_<1]=alpha_[alpha_<1]/(1.0 - alpha_[alpha_<1]**2)**(3.0/2.0) * (np.arccos(alpha_[alpha_<1]) - alpha_[alpha_<1]*np.sqrt(1.0 - alpha_[alpha_<1]**2))
-- 
2.43.0


From 897e0d27bc08a70cd9fa1b668c302825d2e46d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:32 +0000
Subject: [PATCH 03/12] fix: SC_flex starts the shear iteration from the shear
 modulus of the matrix

---
 rockphypy/EM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 5b935cc..6d4cadc 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -890,7 +890,7 @@ class EM:
         """    
         
         K_eff=Km
-        G_eff=Km
+        G_eff=Gm
         for i in range(iter_n):
             nu = 0.5* (3*K_eff- 2*G_eff)/(3*K_eff+G_eff) # Poisson's ratio
             S1 = 1/3 * (1+nu)/( 1-nu)
-- 
2.43.0


From 1f76d5b641c18f1701f19db8b4ca6b98dd08f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:39 +0000
Subject: [PATCH 04/12] fix: silty_shale uses the shear modulus of the shale
 host for both phases

---
 rockphypy/GM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 2867e50..59cf319 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -66,7 +66,7 @@ class GM:
             K_sat, G_sat: elastic moduli of the saturated silty shale.
         """       
 
-        K_sat = ( C/(Ksh+4*Gsh/3)+ (1-C)/(Kq+4*Gq/3) )**-1 -4*Gsh/3
+        K_sat = ( C/(Ksh+4*Gsh/3)+ (1-C)/(Kq+4*Gsh/3) )**-1 -4*Gsh/3
         Zsh = Gsh/6 *(9*Ksh+8*Gsh)/(Ksh+2*Gsh)
         G_sat = (C/(Gsh+Zsh) + (1-C)/(Gq+Zsh))**-1 -Zsh
         return K_sat,G_sat
-- 
2.43.0


From 6e3791013ef6f5792b60bb3511db4be46f2ef414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:22 +0000
Subject: [PATCH 05/12] fix: Digby accepts stress arrays as documented and
 gives one value at zero stress

---
 rockphypy/GM.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 59cf319..72e14e1 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -511,12 +511,13 @@ class GM:
         - Digby, P.J., 1981. Journal of Applied Mechanics, 48, 803–808.
         """        
            
-        sigma =sigma/1000 # converts pressure unit to GPa
+        sigma =np.atleast_1d(sigma)/1000 # converts pressure unit to GPa
         nu=(3*K0-2*G0)/(6*K0+2*G0) # poisson's ratio of mineral mixture
         
-        coeff= np.array([1,0, 3/2* a_R**2, - 3*np.pi*(1-nu)*sigma/(2*Cn*(1-phi)*G0)]) # coeffs of cubic equation
-        roots= np.roots(coeff)
-        root= roots.real[roots.real>=0]
+        # the only real root of d^3 + 3/2*a_R^2*d - c = 0
+        c= 3*np.pi*(1-nu)*sigma/(2*Cn*(1-phi)*G0)
+        disc= np.sqrt((c/2)**2+(a_R**2/2)**3)
+        root= np.cbrt(disc+c/2)-np.cbrt(disc-c/2)
         b_R= np.sqrt(root**2+a_R**2)
         Sn_R= 4*G0*b_R/(1-nu)
         St_R= 8*G0*a_R/(2-nu)
-- 
2.43.0


From bc2482fa2c927b1a04d5c8679faaeaac6049e1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:28 +0000
Subject: [PATCH 06/12] fix: johnson recognises the documented path 'iso_uni'
 and groups its lateral stress correctly

---
 rockphypy/GM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 72e14e1..f7556bc 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -347,9 +347,9 @@ class GM:
         elif path == 'uni_iso':
             sigma33 = 2*Temp*(1/12*Ct+Cn*(alpha**2*I2+I4))
             sigma11 =Temp*(-1/12*Ct+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4))
-        elif path == 'iso-uni':
+        elif path in ('iso_uni', 'iso-uni'):
             sigma33 = 2*Temp*(Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3)+Cn*(alpha**2*I2+I4))
-            sigma11 = Temp*(-Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4)))
+            sigma11 = Temp*(-Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3)+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4))
 
         return C, sigma33,sigma11
 
-- 
2.43.0


From b93a4d91d9645448db766ac64584edf9b6e17229 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:50:47 +0000
Subject: [PATCH 07/12] fix: Shuey gradient of AVO_abe is finite where the
 impedance contrast vanishes

---
 rockphypy/AVO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rockphypy/AVO.py b/rockphypy/AVO.py
index 74c60b0..225dbac 100644
--- a/rockphypy/AVO.py
+++ b/rockphypy/AVO.py
@@ -258,9 +258,9 @@ class AVO:
         poi2=((0.5*(vp2/vs2)**2)-1)/((vp2/vs2)**2-1)
         poia=(poi1+poi2)/2   
         Dpoi=(poi2-poi1)
-        Bx=(Dvp/vpa)/((Dvp/vpa)+(Dd/da))
-        Ax=Bx-(2*(1+Bx)*(1-2*poia)/(1-poia))
-        B1=(Ax*Ro)+(Dpoi/(1-poia)**2)
+        BxRo=0.5*Dvp/vpa # Bx*Ro, finite also for zero impedance contrast
+        AxRo=BxRo-(2*(Ro+BxRo)*(1-2*poia)/(1-poia))
+        B1=AxRo+(Dpoi/(1-poia)**2)
         # case 2 Castagna's paper->Shuey
         B2=(-2*vsa**2*Dd/(vpa**2*da)) + (0.5*Dvp/vpa)-(4*vsa*Dvs/(vpa**2))
 
-- 
2.43.0


From 82f0f7b403432fd5548ebc408ce4ffbf28dc100d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:50:47 +0000
Subject: [PATCH 08/12] fix: pore surface area per volume in Fredrich is
 inversely proportional to grain size

---
 rockphypy/Perm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/Perm.py b/rockphypy/Perm.py
index 8b7b2fc..b218f64 100644
--- a/rockphypy/Perm.py
+++ b/rockphypy/Perm.py
@@ -216,7 +216,7 @@ class Permeability:
         # formation factor assuming tau^2=2.5
         F= 2.5/phi
         # pore surface area per unit sample volume
-        Sv= 6*(1-phi)*d
+        Sv= 6*(1-phi)/d
         # permeability
         k= 1/(b*F) * (phi/Sv)**2
         return k
-- 
2.43.0


From 6d1e612a1548a8f473ab8be60836f39461216e3d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:50:47 +0000
Subject: [PATCH 09/12] fix: segmented velocity trends return one value per
 depth in the order of the depths

---
 rockphypy/Emp.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index c3a885d..d0a9fff 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -121,9 +121,9 @@ class Empirical:
             P wave velocities
         """        
         
-        V1=1707.998+0.66*Z[Z<=2630]
-        V2=1200.84+0.853*Z[Z>2630]
-        V= np.hstack((V1,V2))
+        V1=1707.998+0.66*Z
+        V2=1200.84+0.853*Z
+        V= np.where(Z<=2630,V1,V2)[()]
         return V
 
     @staticmethod
@@ -283,11 +283,12 @@ class Empirical:
             Vp m/s
         """        
         
-        V1=1550+0.6*Z[Z<1393]
-        V2= -400+2*Z[(Z>=1393)&(Z<2000)]
-        V3=2600+0.5*Z[(Z>=2000)&(Z<3500)]
-        V4=3475+0.25*Z[(Z>=3500)&(Z<5300)]
-        V= np.hstack((V1,V2,V3,V4))
+        V1=1550+0.6*Z
+        V2= -400+2*Z
+        V3=2600+0.5*Z
+        V4=3475+0.25*Z
+        # one value per depth in the given order, undefined below 5300 m
+        V= np.where(Z<1393,V1,np.where(Z<2000,V2,np.where(Z<3500,V3,np.where(Z<5300,V4,np.nan))))[()]
         return V
 
     @staticmethod    
-- 
2.43.0


From f2ba75a41c2b35d5985acc53b712093384b22d4f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:50:47 +0000
Subject: [PATCH 10/12] fix: ramm_porosity_segment accepts a single depth

---
 rockphypy/Emp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index d0a9fff..d3d76d4 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -165,8 +165,7 @@ class Empirical:
         """        
         phi1= 45*np.exp(-0.00025*Z)
         phi2= 25-0.013*(Z-2500)
-        phi1[phi1>phi2]=phi2[phi2<phi1]
-        return phi1
+        return np.minimum(phi1,phi2)
 
     @staticmethod
     def empirical_StPeter(Pe, sample=1):
-- 
2.43.0


From 1ab061b2dd927a776901bf6586a20473b7c6c390 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:54:37 +0000
Subject: [PATCH 11/12] fix: estimate_cem works with copy-on-write pandas,
 lists of seeds and data lying on a line

---
 rockphypy/QI.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/rockphypy/QI.py b/rockphypy/QI.py
index 99bf26e..87c1196 100644
--- a/rockphypy/QI.py
+++ b/rockphypy/QI.py
@@ -552,27 +552,26 @@ class QI:
         D0=Dsh*vsh+Dqz*(1-vsh)
         # create an empty dataframe 
         df = pd.DataFrame()
+        vcem_seeds= np.asarray(vcem_seeds)
         # corresponding porosity is phi_c-vcem_seeds[i]
         for i in vcem_seeds:
             
             VP,VS=QI.cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_c-i,phi_c,vsh,self.phi,scheme)
             df['vcem_vp'+str(i)]=VP
         # decide if Vcem is 0 or not, otherwise, interpolate between two closet velocities
-        df['vcem']=np.nan
+        vcem= np.full(len(df),np.nan)
         for i, val in enumerate(self.Vp):
-            array= np.array(df.iloc[i, :-1])
+            array= np.array(df.iloc[i, :])
             if val <= array[0]:
-                df.vcem.values[i]=0
-                #df.iloc[i]['vcem']=0
+                vcem[i]=0
             elif val >=array[-1]:
-                df.vcem.values[i]=0.1
-                #df.iloc[i]['vcem']=0.1
+                vcem[i]=0.1
             else:
-                big =  array[array<val].max()# the largest element of myArr less than myNumber
+                big =  array[array<=val].max()# the largest element of myArr not above myNumber
                 small = array[array>val].min()# the smallest element of myArr greater than myNumber
-                #df.vcem.values[i]
-                df.vcem.values[i]=(val-small)/(big-small)*(vcem_seeds[array==big]-vcem_seeds[array==small])+vcem_seeds[array==small]
-        return df.vcem.values
+                vcem_big, vcem_small= vcem_seeds[array==big][0], vcem_seeds[array==small][0]
+                vcem[i]=(val-small)/(big-small)*(vcem_big-vcem_small)+vcem_small
+        return vcem
     def cement_diag_plot(self,vcem,Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phib,phib_p,phi_c,sigma,vsh,Cn, scheme,f):
         """_summary_
 
-- 
2.43.0


From b2cd763d6d4de75835c6aaa188c1f16f2d8fa0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:55:02 +0000
Subject: [PATCH 12/12] fix: estimate_cem uses the coordination number it is
 given

---
 rockphypy/QI.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rockphypy/QI.py b/rockphypy/QI.py
index 87c1196..541ea9b 100644
--- a/rockphypy/QI.py
+++ b/rockphypy/QI.py
@@ -447,7 +447,7 @@ class QI:
         #plt.legend()
         return fig,ax
     @staticmethod
-    def cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_b,phi_c,vsh,phi,scheme):
+    def cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_b,phi_c,vsh,phi,scheme,Cn=None):
         """input real data porosity and caculate the theoretical constant cement model velocity value.  Note: input porosity cannot be zero, otherwise the returned velocities are Nan.
 
         Parameters
@@ -486,6 +486,8 @@ class QI:
             Scheme of cement deposition
                     1=cement deposited at grain contacts
                     2=cement deposited at grain surfaces
+        Cn : float, optional
+            coordination number, by default estimated from the critical porosity
 
         Returns
         -------
@@ -496,7 +498,8 @@ class QI:
         _,_,K0=EM.VRH(np.array([vsh,1-vsh]),np.array([Ksh,Kqz]))
         _,_,G0=EM.VRH(np.array([vsh,1-vsh]),np.array([Gsh,Gqz])) # this is only two component sandstone, when sandstone is multimineralogy, vectorization should apply here
         D0=Dsh*vsh+Dqz*(1-vsh)
-        Cn=Empirical.Cp(phi_c) ## calculate coordination number 
+        if Cn is None:
+            Cn=Empirical.Cp(phi_c) ## calculate coordination number 
         Kdry, Gdry=GM.constantcement(phi_b, K0, G0, Kc, Gc, phi, phi_c, Cn, scheme )
         vp,vs,_= Fluid.vels(Kdry,Gdry,K0,D0,Kb,Db,phi)
         return vp,vs 
@@ -556,7 +559,7 @@ class QI:
         # corresponding porosity is phi_c-vcem_seeds[i]
         for i in vcem_seeds:
             
-            VP,VS=QI.cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_c-i,phi_c,vsh,self.phi,scheme)
+            VP,VS=QI.cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_c-i,phi_c,vsh,self.phi,scheme,Cn)
             df['vcem_vp'+str(i)]=VP
         # decide if Vcem is 0 or not, otherwise, interpolate between two closet velocities
         vcem= np.full(len(df),np.nan)
-- 
2.43.0

