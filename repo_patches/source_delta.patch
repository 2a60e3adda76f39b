From 99b5c595d33be212f0f8f6cfc1351c82390331f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 01/92] fix: operator+= and operator-= of Element update their
 left operand

---
 Manifolds/Element.cpp | 4 ++--
 Manifolds/Element.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 40d25ab..783bb09 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -214,7 +214,7 @@ namespace ROPTLIB{
         return result;
     };
 
-    Element operator+=(Element left, Element right)
+    Element &operator+=(Element &left, const Element &right)
     {
         assert(left.Getlength() == right.Getlength());
         realdp *leftptr = left.ObtainWritePartialData();
@@ -290,7 +290,7 @@ namespace ROPTLIB{
         return result;
     };
 
-    Element operator-=(Element left, Element right)
+    Element &operator-=(Element &left, const Element &right)
     {
         assert(left.Getlength() == right.Getlength());
         realdp *leftptr = left.ObtainWritePartialData();
diff --git a/Manifolds/Element.h b/Manifolds/Element.h
index b541cc1..156926b 100644
--- a/Manifolds/Element.h
+++ b/Manifolds/Element.h
@@ -65,7 +65,7 @@ namespace ROPTLIB{
         friend Element operator+(realdpcomplex left, Element right);
         
         /*left = left + right*/
-        friend Element operator+=(Element left, Element right);
+        friend Element &operator+=(Element &left, const Element &right);
         
         /*substract an element from another. They have to be both real or complex*/
         friend Element operator-(Element left, Element right);
@@ -83,7 +83,7 @@ namespace ROPTLIB{
         friend Element operator-(realdpcomplex left, Element right);
         
         /*left = left - right*/
-        friend Element operator-=(Element left, Element right);
+        friend Element &operator-=(Element &left, const Element &right);
         
         /*a element times another, they have to be both real or complex
          This is matrix multiplication*/
-- 
2.43.0


From 0deb8f61885f7f23d8e7f372c20f0903ffc93dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 02/92] fix: SubmatrixAssignment keeps the entries outside the
 block when the storage is shared

---
 Manifolds/Element.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 783bb09..3e9421e 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2235,7 +2235,8 @@ namespace ROPTLIB{
         assert(rend - rstart + 1 == mat.Getrow() && cend - cstart + 1 == mat.Getcol() && mat.Getiscomplex() == iscomplex);
         const realdp *matptr = mat.ObtainReadData();
         integer matrow = mat.Getrow();
-        this->NewMemoryOnWrite();
+        RemoveAllFromFields();
+        this->CopyOnWrite();
         if(!iscomplex)
         {
             for(integer j = cstart; j <= cend; j++)
-- 
2.43.0


From 7b3705e4a4c2891377316168dd8aa8846e378f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 03/92] fix: Conj does not write through shared storage and
 drops cached fields

---
 Manifolds/Element.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 3e9421e..3306411 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1948,7 +1948,8 @@ namespace ROPTLIB{
         assert(Space != nullptr);
         assert(iscomplex);
         integer num = length / 2;
-        scal_(&num, &GLOBAL::DNONE, Space + 1, &GLOBAL::ITWO);
+        realdp *thisptr = this->ObtainWritePartialData();
+        scal_(&num, &GLOBAL::DNONE, thisptr + 1, &GLOBAL::ITWO);
         return (*this);
     };
 
-- 
2.43.0


From ca13b3931d6718dfab1d5ae4705ea344c9935378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 04/92] fix: HaddRankone does not write through shared storage
 and drops cached fields

---
 Manifolds/Element.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 3306411..625f53d 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1614,10 +1614,11 @@ namespace ROPTLIB{
         assert(v.Getcol() == 1 && v.Getnum() == 1 && v.Getrow() == Getcol());
         assert(Space != nullptr);
         integer m = Getrow(), n = Getcol();
+        realdp *thisptr = this->ObtainWritePartialData();
         const realdp *uptr = u.ObtainReadData();
         const realdp *vptr = v.ObtainReadData();
 
-        ger_(&m, &n, &scalar, const_cast<realdp *> (uptr), &GLOBAL::IONE, const_cast<realdp *> (vptr), &GLOBAL::IONE, Space, &m);
+        ger_(&m, &n, &scalar, const_cast<realdp *> (uptr), &GLOBAL::IONE, const_cast<realdp *> (vptr), &GLOBAL::IONE, thisptr, &m);
         
         return *this;
     };
@@ -1629,11 +1630,12 @@ namespace ROPTLIB{
         assert(Space != nullptr);
         assert(iscomplex == true && u.Getiscomplex() == true && v.Getiscomplex() == true);
         integer m = Getrow(), n = Getcol();
+        realdp *thisptr = this->ObtainWritePartialData();
         const realdp *uptr = u.ObtainReadData();
         const realdp *vptr = v.ObtainReadData();
 
         ger_(&m, &n, &scalar, const_cast<realdpcomplex *> ((realdpcomplex *) uptr), &GLOBAL::IONE, const_cast<realdpcomplex *> ((realdpcomplex *) vptr), &GLOBAL::IONE,
-                 (realdpcomplex *) Space, &m);
+                 (realdpcomplex *) thisptr, &m);
         
         return *this;
     };
-- 
2.43.0


From 7a3d60be9c7c62239ebd5632556979ff0afa9d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 05/92] fix: ScaledIdOPE drops the cached fields of the
 overwritten value

---
 Manifolds/Element.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 625f53d..7ecefb9 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2862,7 +2862,7 @@ namespace ROPTLIB{
             printf("Warning: This is not a square matrix. It can not be assigned to be an identity matrix!\n");
             return;
         }
-        SmartSpace::NewMemoryOnWrite();
+        NewMemoryOnWrite();
         integer ell = size[0];
         for (integer i = 0; i < ell; i++)
         {
-- 
2.43.0


From a424d3f45208384ac230e166e67683357f5e5f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 06/92] fix: Element::CopyOnWrite removes temporary data as
 documented

---
 Manifolds/Element.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 7ecefb9..63874bf 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2694,6 +2694,7 @@ namespace ROPTLIB{
 
     void Element::CopyOnWrite(void)
     {
+        RemoveAllFromFields();
         SmartSpace::CopyOnWrite();
         ResetMultiElementsParams(powsinterval, numoftypes, elements, numofelements);
     };
-- 
2.43.0


From c9eaf4e0a883e490f06b6b661089624f2f339baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 07/92] fix: Element::Reshape drops cached fields that belong
 to the old shape

---
 Manifolds/Element.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 63874bf..731f486 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1811,6 +1811,8 @@ namespace ROPTLIB{
 
     Element &Element::Reshape(integer r, integer c, integer n)
     {
+        if(Getrow() != r || Getcol() != c || Getnum() != n) /*the temporary data belong to the old shape*/
+            RemoveAllFromFields();
         if(!iscomplex)
         {
             assert(r * c * n == length);
-- 
2.43.0


From bde6da1606886113a2699271c928eac435b2c793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 08/92] fix: SmartSpace::CopyTo copies the shape when the data
 are already shared

---
 Manifolds/SmartSpace.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Manifolds/SmartSpace.cpp b/Manifolds/SmartSpace.cpp
index 9d42f3d..9c27e97 100644
--- a/Manifolds/SmartSpace.cpp
+++ b/Manifolds/SmartSpace.cpp
@@ -85,8 +85,17 @@ namespace ROPTLIB{
 
 	void SmartSpace::CopyTo(SmartSpace &eta) const
 	{
-		if (this == &eta || (eta.Space == Space && !(eta.Space == nullptr && Space == nullptr)))
+		if (this == &eta)
 			return;
+		if (eta.Space == Space && Space != nullptr) /*the data are shared already, but the shapes may differ*/
+		{
+			if (eta.ls == ls && eta.length == length)
+			{
+				for (integer i = 0; i < ls; i++)
+					eta.size[i] = size[i];
+			}
+			return;
+		}
         
 		bool IsSameSize = true;
         
-- 
2.43.0


From 7bf0070cbba067075d837473d2442de0ed545f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 09/92] fix: GetRealInComplex and GetImagInComplex return fully
 initialised real elements

---
 Manifolds/Element.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 731f486..4fd9ded 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2549,8 +2549,8 @@ namespace ROPTLIB{
     Element Element::GetRealInComplex(void) const
     {
         assert(iscomplex && Space != nullptr);
-        Element result(Getrow(), Getcol(), Getnum(), "complex");
-        realdp *resultptr = result.ObtainWritePartialData();
+        Element result(Getrow(), Getcol(), Getnum());
+        realdp *resultptr = result.ObtainWriteEntireData();
         for(integer i = 0; i < length / 2; i++)
         {
             resultptr[i] = Space[i * 2];
@@ -2561,8 +2561,8 @@ namespace ROPTLIB{
     Element Element::GetImagInComplex(void) const
     {
         assert(iscomplex && Space != nullptr);
-        Element result(Getrow(), Getcol(), Getnum(), "complex");
-        realdp *resultptr = result.ObtainWritePartialData();
+        Element result(Getrow(), Getcol(), Getnum());
+        realdp *resultptr = result.ObtainWriteEntireData();
         for(integer i = 0; i < length / 2; i++)
         {
             resultptr[i] = Space[i * 2 + 1];
-- 
2.43.0


From 08509fe3b586839452b1df2d5658063bb3373c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 10/92] fix: assigning a product element drops the old
 temporary data of its components

---
 Manifolds/Element.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 4fd9ded..6e5b5bd 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2599,6 +2599,8 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                if (&eta != this) /*the component must not keep the temporary data of the overwritten value*/
+                    eta.GetElement(j).RemoveAllFromFields();
                 elements[j].CopyFieldsTo(eta.GetElement(j));
             }
         }
-- 
2.43.0


From bf2279eddc5edb3b0a4b2f6f207dff11ee33db5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 11/92] fix: a copy of a component of a product element owns
 its data

---
 Manifolds/SmartSpace.cpp | 27 ++++++++++++++++++++++-----
 Manifolds/SmartSpace.h   |  1 +
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/Manifolds/SmartSpace.cpp b/Manifolds/SmartSpace.cpp
index 9c27e97..4357d45 100644
--- a/Manifolds/SmartSpace.cpp
+++ b/Manifolds/SmartSpace.cpp
@@ -87,7 +87,7 @@ namespace ROPTLIB{
 	{
 		if (this == &eta)
 			return;
-		if (eta.Space == Space && Space != nullptr) /*the data are shared already, but the shapes may differ*/
+		if (eta.Space == Space && Space != nullptr && !isview && !eta.isview) /*the data are shared already, but the shapes may differ*/
 		{
 			if (eta.ls == ls && eta.length == length)
 			{
@@ -127,6 +127,13 @@ namespace ROPTLIB{
              }
 			return;
 		}
+		realdp *owned = nullptr;
+		if (isview && Space != nullptr) /*the data belong to a collection, which does not count this sharing. Hence, make a copy*/
+		{
+			integer N = length, inc = 1;
+			owned = new realdp[length];
+			copy_(&N, Space, &inc, owned, &inc);
+		}
 		if (eta.sharedtimes != nullptr && *(eta.sharedtimes) > 1)
 		{
 			(*(eta.sharedtimes))--;
@@ -141,10 +148,18 @@ namespace ROPTLIB{
 				delete[] eta.Space; eta.Space = nullptr;
 			}
         
-		if (sharedtimes != nullptr)
-			(*sharedtimes)++;
-		eta.sharedtimes = sharedtimes;
-		eta.Space = Space;
+		if (isview)
+		{
+			eta.sharedtimes = (owned != nullptr) ? new integer(1) : nullptr;
+			eta.Space = owned;
+		}
+		else
+		{
+			if (sharedtimes != nullptr)
+				(*sharedtimes)++;
+			eta.sharedtimes = sharedtimes;
+			eta.Space = Space;
+		}
         
 		if (eta.ls != ls)
 		{
@@ -294,12 +309,14 @@ namespace ROPTLIB{
 		length = inlength;
 		sharedtimes = insharedtimes;
 		Space = inSpace;
+		isview = true;
 	};
 
     void SmartSpace::SetByParams(integer *insharedtimes, realdp *inSpace)
     {
         sharedtimes = insharedtimes;
         Space = inSpace;
+        isview = true;
     };
 
     void SmartSpace::DeleteBySettingNull(void)
diff --git a/Manifolds/SmartSpace.h b/Manifolds/SmartSpace.h
index 173dae9..af1bb66 100644
--- a/Manifolds/SmartSpace.h
+++ b/Manifolds/SmartSpace.h
@@ -108,6 +108,7 @@ namespace ROPTLIB{
 
 		integer *sharedtimes; /*The number of use of the data*/
 		realdp *Space; /*The pointer which points to the data*/
+		bool isview = false; /*true if the data belong to a collection of multiple elements, see SetByParams*/
 
 		/*allocate memory*/
 		void NewMemory(void);
-- 
2.43.0


From 26a21870c9dd1712eb311f27bb5b7a687bc73a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 12/92] fix: assigning a product element copies the shapes of
 its components

---
 Manifolds/Element.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 6e5b5bd..1445fdc 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2937,7 +2937,8 @@ namespace ROPTLIB{
         {
             for(integer i = 0; i < innumofelements; i++)
             {
-                if(inelements[i].Getlength() != elements[i].Getlength())
+                if(inelements[i].Getlength() != elements[i].Getlength() || inelements[i].Getiscomplex() != elements[i].Getiscomplex()
+                   || inelements[i].Getrow() != elements[i].Getrow() || inelements[i].Getcol() != elements[i].Getcol() || inelements[i].Getnum() != elements[i].Getnum())
                 {
                     issamesize = false;
                     break;
-- 
2.43.0


From f6c47b4e4842b02f3a588bbfd692527f391a46da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 13/92] fix: DiffRetraction and coTangentVector allow result to
 be stored in their vector argument

---
 Manifolds/CStiefel.cpp       | 2 +-
 Manifolds/FixedRankE.cpp     | 7 ++++---
 Manifolds/Manifold.cpp       | 7 ++++---
 Manifolds/MultiManifolds.cpp | 6 +++---
 Manifolds/Sphere.cpp         | 6 +++---
 Manifolds/SphereTx.cpp       | 2 +-
 Manifolds/Stiefel.cpp        | 7 ++++---
 7 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index be3044d..7647dda 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -549,6 +549,7 @@ namespace ROPTLIB{
                 ObtainExtr(x, etax, &etaxtmp);
             else
                 etaxtmp = etax;
+			realdp nxix = std::sqrt(Metric(x, xix, xix)); /*xix and result may be the same*/
 			realdp alpha = sqrt(Metric(x, xix, xix) / Metric(x, etax, etax));
             Vector Vt = y.Field("_Vt");
             Vector S = y.Field("_S");
@@ -566,7 +567,6 @@ namespace ROPTLIB{
 
 			if (IsEtaXiSameDir && HasHHR)
 			{
-                realdp nxix = std::sqrt(Metric(x, xix, xix));
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
                 realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 84ca83b..e368934 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -201,6 +201,8 @@ namespace ROPTLIB{
         if(IsEtaXiSameDir)
         {
             Vector Ux = x.Field("U"), dUeta = etax.Field("dU"), Uy = y.Field("U"), dUxix = xix.Field("dU");
+            Vector dDxix = xix.Field("dD"); /*xix and result may be the same*/
+            realdp nxix = std::sqrt(Metric(x, xix, xix));
             Vector Dx = x.Field("D"), Dy = y.Field("D");
             Vector Vx = x.Field("V"), dVeta = etax.Field("dV"), Vy = y.Field("V"), dVxix = xix.Field("dV");
             
@@ -218,14 +220,13 @@ namespace ROPTLIB{
             tmp2 = Vy_S.GetDiagTimesM(tmp2, GLOBAL::R) * Vy_Vt;
             Vector result2 = (tmp2 - Vy * (tmp2.GetTranspose() * tmp2)) * alpha2;
             
-            *result = Uy * Dy * result2.GetTranspose() + Uy * xix.Field("dD") * Vy.GetTranspose() + result1 * Dy * Vy.GetTranspose();
+            *result = Uy * Dy * result2.GetTranspose() + Uy * dDxix * Vy.GetTranspose() + result1 * Dy * Vy.GetTranspose();
             result->AddToFields("dU", result1);
-            result->AddToFields("dD", xix.Field("dD"));
+            result->AddToFields("dD", dDxix);
             result->AddToFields("dV", result2);
             
             if (IsEtaXiSameDir && HasHHR)
             {
-                realdp nxix = std::sqrt(Metric(x, xix, xix));
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
                 realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 7f2125b..20164bf 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -133,16 +133,17 @@ namespace ROPTLIB{
                 printf("Manifold::DiffRetraction has not been overridden!\n");
         #endif
         
+        realdp nxixsq = (IsEtaXiSameDir && HasHHR) ? Metric(x, xix, xix) : 0; /*xix and result may be the same*/
         Projection(y, xix, result);
 
         if (IsEtaXiSameDir && HasHHR)
         {
             Vector beta(3);
             realdp *betaptr = beta.ObtainWriteEntireData();
-            realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, xix, xix));
-            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(x, *result, *result)) / EtatoXi;
+            realdp EtatoXi = sqrt(Metric(x, etax, etax) / nxixsq);
+            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
             betaptr[1] = Metric(x, etax, etax);
-            betaptr[2] = Metric(x, *result, *result) * EtatoXi * EtatoXi;
+            betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
             etax.AddToFields("beta", beta);
             
             if (HasHHR)
diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 4a53cd0..f54dcaa 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -317,10 +317,10 @@ namespace ROPTLIB{
         {
             Vector beta(3);
             realdp *betaptr = beta.ObtainWriteEntireData();
-            realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, xix, xix));
-            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(x, *result, *result)) / EtatoXi;
+            realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, inxix, inxix));
+            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
             betaptr[1] = Metric(x, etax, etax);
-            betaptr[2] = Metric(x, *result, *result) * EtatoXi * EtatoXi;
+            betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
             etax.AddToFields("beta", beta);
             
             if (HasHHR)
diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index a528d33..40d17f5 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -70,13 +70,14 @@ namespace ROPTLIB{
 		realdp normetax = sqrt(Metric(x, etax, etax));
 		realdp sinnormetax = sin(normetax);
 		realdp cosnormetax = cos(normetax);
-		VectorLinearCombination(x, sinnormetax / normetax, xiy, (xiytetax * cosnormetax / normetax
-			- xiytx * sinnormetax - xiytetax * sinnormetax / normetax / normetax) / normetax, etax, result);
+		VectorLinearCombination(x, (xiytetax * cosnormetax / normetax
+			- xiytx * sinnormetax - xiytetax * sinnormetax / normetax / normetax) / normetax, etax, sinnormetax / normetax, xiy, result);
 		return Projection(x, *result, result);
 	};
 
 	Vector &Sphere::ExpDiffRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
 	{
+		realdp nxix = std::sqrt(Metric(x, xix, xix)); /*xix and result may be the same*/
 		realdp etaxtxix = Metric(x, etax, xix);
 		realdp normetax = sqrt(Metric(x, etax, etax));
 		realdp sinnormetax = sin(normetax);
@@ -86,7 +87,6 @@ namespace ROPTLIB{
 
         if (IsEtaXiSameDir && HasHHR)
         {
-            realdp nxix = std::sqrt(Metric(x, xix, xix));
             Vector beta(3);
             realdp *betaptr = beta.ObtainWriteEntireData();
             realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
diff --git a/Manifolds/SphereTx.cpp b/Manifolds/SphereTx.cpp
index 4c61b58..5ede719 100644
--- a/Manifolds/SphereTx.cpp
+++ b/Manifolds/SphereTx.cpp
@@ -97,11 +97,11 @@ namespace ROPTLIB{
 	{
 		if (IsEtaXiSameDir)
 		{
+            realdp nxix = std::sqrt(Metric(x, xix, xix)); /*xix and result may be the same*/
             VectorTransport(x, etax, y, xix, result);
             
             if (IsEtaXiSameDir && HasHHR)
             {
-                realdp nxix = std::sqrt(Metric(x, xix, xix));
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
                 realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index 6fbe5d5..fad1802 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -604,6 +604,7 @@ namespace ROPTLIB{
                 ObtainExtr(x, etax, &etaxtmp);
             else
                 etaxtmp = etax;
+			realdp nxix = std::sqrt(Metric(x, xix, xix)); /*xix and result may be the same*/
 			realdp alpha = sqrt(Metric(x, xix, xix) / Metric(x, etax, etax));
             Vector Vt = y.Field("_Vt");
             Vector S = y.Field("_S");
@@ -621,7 +622,6 @@ namespace ROPTLIB{
 
 			if (IsEtaXiSameDir && HasHHR)
 			{
-                realdp nxix = std::sqrt(Metric(x, xix, xix));
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
                 realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
@@ -817,6 +817,7 @@ namespace ROPTLIB{
 	{
 		if (IsEtaXiSameDir)
 		{
+			realdp nxixsq = Metric(x, xix, xix); /*xix and result may be the same*/
 			const realdp *Mk2ptr = x.Field("Mk2").ObtainReadData();
 			const realdp *Mk3ptr = x.Field("Mk3").ObtainReadData();
 			const realdp *LUPptr = x.Field("LUP").ObtainReadData();
@@ -856,13 +857,13 @@ namespace ROPTLIB{
             else
                 *result = exresult;
             
-			ScalarTimesVector(x, sqrt(Metric(x, xix, xix) / Metric(x, etax, etax)), *result, result);
+			ScalarTimesVector(x, sqrt(nxixsq / Metric(x, etax, etax)), *result, result);
 
             if (IsEtaXiSameDir && HasHHR)
             {
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
-                realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, xix, xix));
+                realdp EtatoXi = sqrt(Metric(x, etax, etax) / nxixsq);
                 betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
                 betaptr[1] = Metric(x, etax, etax);
                 betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
-- 
2.43.0


From 8fbeda54515f6d37e9da584434e41768dba40da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 14/92] fix: affine invariant distance on the SPD manifold uses
 the logarithm of the eigenvalues

---
 Manifolds/SPDManifold.cpp | 1151 +++++++++++++++++++------------------
 1 file changed, 577 insertions(+), 574 deletions(-)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index 776398c..19c3425 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -1,574 +1,577 @@
-
-#include "Manifolds/SPDManifold.h"
-
-/*Define the namespace*/
-namespace ROPTLIB{
-
-	SPDManifold::SPDManifold(integer inn)
-	{
-		n = inn;
-		IsIntrApproach = true;
-		HasHHR = false;
-		name.assign("SPDManifold");
-		IntrinsicDim = n * (n + 1) / 2;
-		ExtrinsicDim = n * n;
-		metric = SPDAFFINEINVARIANCE;
-        retr = SPDSECONDORDER;
-        VecTran = SPDVTPARA;
-        EMPTYEXTR = Vector(n, n);
-        EMPTYINTR = Vector(IntrinsicDim);
-	};
-
-	SPDManifold::~SPDManifold(void)
-	{
-	};
-
-	void SPDManifold::ChooseParamsSet1(void)
-	{
-        IsIntrApproach = true;
-		metric = SPDAFFINEINVARIANCE;
-        retr = SPDSECONDORDER;
-        VecTran = SPDVTPARA;
-	};
-
-	void SPDManifold::ChooseParamsSet2(void)
-	{
-        IsIntrApproach = true;
-		metric = SPDEUCLIDEAN;
-        retr = SPDSECONDORDER;
-        VecTran = SPDVTPARA;
-	}
-
-    void SPDManifold::ChooseParamsSet3(void)
-    {
-        IsIntrApproach = false;
-        metric = SPDAFFINEINVARIANCE;
-        retr = SPDEXP;
-        VecTran = SPDPARATRAN;
-    };
-
-    void SPDManifold::ChooseParamsSet4(void)
-    {
-        IsIntrApproach = false;
-        metric = SPDEUCLIDEAN;
-        retr = SPDEXP;
-        VecTran = SPDPARATRAN;
-    }
-
-    realdp SPDManifold::Metric(const Variable &x, const Vector &etax, const Vector &xix) const
-    {
-        if(IsIntrApproach || metric == SPDEUCLIDEAN)
-            return etax.DotProduct(xix);
-        
-        if (metric == SPDAFFINEINVARIANCE)
-        {
-            Vector tmp = ((x % etax) / x);
-            return tmp.DotProduct(xix);
-        }
-        
-        printf("Warning: SPDManifold::metric has not been done!\n");
-        return etax.DotProduct(xix);
-    };
-
-    Variable SPDManifold::RandominManifold(void) const
-    {
-        Vector tmp(n, n); tmp.RandGaussian();
-        return tmp * tmp.GetTranspose();
-    };
-
-	void SPDManifold::CheckParams(void) const
-	{
-        std::string SPDMetricnames[SPDMETRICLENGTH] = { "EUCLIDEAN", "AFFINV" };
-        std::string SPDRetractionnames[SPDRETRACTIONLENGTH] = { "SPDEXP", "SPDSECONDORDER" };
-        std::string SPDVecTrannames[SPDVECTORTRANSPORTLENGTH] = { "SPDPARATRAN", "SPDVTPARA" };
-		Manifold::CheckParams();
-		printf("%s PARAMETERS:\n", name.c_str());
-		printf("row           :%15d,\t", n);
-		printf("col           :%15d\n", n);
-        printf("metric        :%15s,\t", SPDMetricnames[metric].c_str());
-        printf("Retraction    :%15s,\n", SPDRetractionnames[retr].c_str());
-        printf("VecTran       :%15s,\n", SPDVecTrannames[VecTran].c_str());
-	};
-
-	Vector &SPDManifold::ExtrProjection(const Variable &x, const Vector &etax, Vector *result) const
-	{
-        Vector inetax = etax;
-		const realdp *etaxptr = inetax.ObtainReadData();
-		realdp *resultptr = result->ObtainWriteEntireData();
-		for (integer i = 0; i < n; i++)
-		{
-			resultptr[i + i * n] = etaxptr[i + i * n];
-			for (integer j = i + 1; j < n; j++)
-			{
-				resultptr[i + j * n] = (etaxptr[i + j * n] + etaxptr[j + i * n]) * static_cast<realdp> (0.5);
-				resultptr[j + i * n] = resultptr[i + j * n];
-			}
-		}
-        return *result;
-	};
-
-	Vector &SPDManifold::EucGradToGrad(const Variable &x, const Vector &egf, const Problem *prob, Vector *result) const
-	{
-		if (metric == SPDAFFINEINVARIANCE)
-			return EucGradToGradAF(x, egf, prob, result);
-        
-		if (metric == SPDEUCLIDEAN)
-			return EucGradToGradEuc(x, egf, prob, result);
-
-        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
-        return EucGradToGradAF(x, egf, prob, result);
-	};
-
-	Vector &SPDManifold::EucHvToHv(const Variable &x, const Vector &etax, const Vector &exix, const Problem *prob, Vector *result) const
-	{
-		if (metric == SPDAFFINEINVARIANCE)
-			return EucHvToHvAF(x, etax, exix, prob, result);
-        
-        if (metric == SPDEUCLIDEAN)
-            return EucHvToHvEuc(x, etax, exix, prob, result);
-        
-        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
-        return EucHvToHvAF(x, etax, exix, prob, result);
-	};
-
-	Vector &SPDManifold::ObtainIntr(const Variable &x, const Vector &etax, Vector *result) const
-	{
-		if (metric == SPDAFFINEINVARIANCE)
-			return ObtainIntrAF(x, etax, result);
-        
-        if (metric == SPDEUCLIDEAN)
-            return ObtainIntrEuc(x, etax, result);
-
-        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
-        return ObtainIntrAF(x, etax, result);
-	};
-
-	Vector &SPDManifold::ObtainExtr(const Variable &x, const Vector &intretax, Vector *result) const
-	{
-		if (metric == SPDAFFINEINVARIANCE)
-			return ObtainExtrAF(x, intretax, result);
-        
-        if (metric == SPDEUCLIDEAN)
-            return ObtainExtrEuc(x, intretax, result);
-        
-        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
-        return ObtainExtrAF(x, intretax, result);
-	};
-
-	realdp SPDManifold::Dist(const Variable &x1, const Variable &x2) const
-	{
-		if (metric == SPDAFFINEINVARIANCE)
-			return DistAF(x1, x2);
-        
-        if (metric == SPDEUCLIDEAN)
-            return DistEuc(x1, x2);
-        
-        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
-        return DistAF(x1, x2);
-	};
-
-    Variable &SPDManifold::Retraction(const Variable &x, const Vector &etax, Variable *result) const
-    {
-        if (retr == SPDEXP)
-            return ExpRetraction(x, etax, result);
-        
-        if (retr == SPDSECONDORDER)
-            return SecOrdRetraction(x, etax, result);
-        
-        printf("Warning: the Riemannian retraction is not valid! Use the second order retraction instead!");
-        return SecOrdRetraction(x, etax, result);
-    };
-
-    Vector &SPDManifold::DiffRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
-    {
-        if (retr == SPDEXP)
-            return DiffExpRetraction(x, etax, y, xix, result, IsEtaXiSameDir);
-        
-        if (retr == SPDSECONDORDER)
-            return DiffSecOrdRetraction(x, etax, y, xix, result, IsEtaXiSameDir);
-        
-        printf("Warning: the Riemannian retraction is not valid! Use the second order retraction instead!");
-        return DiffSecOrdRetraction(x, etax, y, xix, result, IsEtaXiSameDir);
-    };
-
-    Variable &SPDManifold::ExpRetraction(const Variable &x, const Vector &etax, Variable *result) const
-    {
-        if (!x.FieldsExist("_L"))
-        {
-            x.CholDecom();
-        }
-        Vector exetax(EMPTYEXTR);
-        if(IsIntrApproach)
-            ObtainExtr(x, etax, &exetax);
-        else
-            exetax = etax;
-        
-        Vector LiE = exetax.TriangleLinSol(x.Field("_L"));
-        Vector LiELiT = LiE.GetTranspose().TriangleLinSol(x.Field("_L"));
-        Vector tmp(n, n);
-        tmp.AlphaABaddBetaThis(1, x.Field("_L"), GLOBAL::N, LiELiT.ExpSym(), GLOBAL::N, 0);
-        result->AlphaABaddBetaThis(1, tmp, GLOBAL::N, x.Field("_L"), GLOBAL::T, 0);
-        realdp *resultptr = result->ObtainWritePartialData();
-        
-        realdp tmpv = 0;
-        for(integer i = 0; i < n; i++)
-        {
-            for(integer j = i + 1; j < n; j++)
-            {
-                tmpv = (resultptr[i + j * n] + resultptr[j + i * n]) / 2;
-                resultptr[i + j * n] = tmpv;
-                resultptr[j + i * n] = tmpv;
-            }
-        }
-        
-        if (!result->FieldsExist("_L"))
-        {
-            result->CholDecom();
-        }
-        return *result;
-    };
-
-    Vector &SPDManifold::DiffExpRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
-    {
-        printf("Warning: SPDManifold::DiffExpRetraction has not been implemented yet!\n");
-        return Manifold::DiffRetraction(x, etax, y, xix, result, IsEtaXiSameDir);
-    };
-
-	Variable &SPDManifold::SecOrdRetraction(const Variable &x, const Vector &etax, Variable *result) const
-	{ /* result = x + etx + 0.5 * etax * x^{-1} * etax */
-        if (!x.FieldsExist("_L"))
-        {
-            x.CholDecom();
-        }
-        Vector exetax(EMPTYEXTR);
-        if(IsIntrApproach)
-            ObtainExtr(x, etax, &exetax);
-        else
-            exetax = etax;
-        
-        Vector LiE = exetax.TriangleLinSol(x.Field("_L"));
-        
-        result->AlphaABaddBetaThis(0.5, LiE, GLOBAL::T, LiE, GLOBAL::N, 0);
-        
-        result->AlphaXaddThis(1, exetax);
-        result->AlphaXaddThis(1, x);
-        
-        if (!result->FieldsExist("_L"))
-        {
-            result->CholDecom();
-        }
-        return *result;
-	};
-
-	Vector &SPDManifold::DiffSecOrdRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
-	{ /* xix + 0.5 xix x^{-1} etax + 0.5 etax x^{-1} xix */
-        realdp nxix = std::sqrt(Metric(x, xix, xix));
-
-        if (!x.FieldsExist("_L"))
-        {
-            x.CholDecom();
-        }
-        Vector exetax(EMPTYEXTR), exxix(EMPTYEXTR);
-        if(IsIntrApproach)
-        {
-            ObtainExtr(x, etax, &exetax);
-            ObtainExtr(x, xix, &exxix);
-        }
-        else
-        {
-            exetax = etax;
-            exxix = xix;
-        }
-        Vector LiE = exetax.TriangleLinSol(x.Field("_L"));
-        Vector LiX = exxix.TriangleLinSol(x.Field("_L"));
-        Vector exresult(EMPTYEXTR);
-        exresult.AlphaABaddBetaThis(1, LiE, GLOBAL::T, LiX, GLOBAL::N, 0);
-        realdp *exresultptr = exresult.ObtainWritePartialData();
-        for (integer i = 0; i < n; i++)
-        {
-            for (integer j = i + 1; j < n; j++)
-            {
-                exresultptr[j + i * n] = (exresultptr[j + i * n] + exresultptr[i + j * n]) * static_cast<realdp> (0.5);
-                exresultptr[i + j * n] = exresultptr[j + i * n];
-            }
-        }
-        exresult.AlphaXaddThis(1, exxix);
-        
-        if(IsIntrApproach)
-            ObtainIntr(y, exresult, result);
-        else
-            *result = exresult;
-
-        if (IsEtaXiSameDir && HasHHR)
-        {
-            Vector beta(3);
-            realdp *betaptr = beta.ObtainWriteEntireData();
-            realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
-            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
-            betaptr[1] = Metric(x, etax, etax);
-            betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
-            etax.AddToFields("beta", beta);
-            
-            if (HasHHR)
-            {
-                etax.AddToFields("betaTReta", (*result) * (betaptr[0] * EtatoXi));
-            }
-        }
-        return *result;
-	};
-
-	Vector &SPDManifold::coTangentVector(const Variable &x, const Vector &etax, const Variable &y, const Vector &xiy, Vector *result) const
-	{
-		printf("SPDManifold::coTangentVector has not been done!\n");
-        return Manifold::coTangentVector(x, etax, y, xiy, result);
-	};
-
-	realdp SPDManifold::Beta(const Variable &x, const Vector &etax) const
-	{
-        if (!HasHHR)
-            return 1;
-        
-        assert(etax.FieldsExist("beta"));
-
-        /*If the beta has been computed in differentiated retraction, then obtain it.
-        Beta should be almost always computed before.*/
-        Vector beta = etax.Field("beta");
-        const realdp *betav = beta.ObtainReadData();
-        return betav[0];
-	};
-
-	Vector &SPDManifold::EucGradToGradAF(const Variable &x, const Vector &egf, const Problem *prob, Vector *result) const
-	{
-        if (prob->GetUseHess())
-        {
-            /*The copy on write is necessary. The reason is that the egf may be from a component in a product of elements.
-            Therefore, if CopyOnWrite is not used, then the attached data in x and the product of elements share the same
-            memory. This may cause an issue: if the product of elements are released before the attached data in x, then
-            release the attached data in x would attempt to delete memory that has been released. This is an error!*/
-            Vector EGrad(egf);
-            EGrad.CopyOnWrite();
-            x.AddToFields("EGrad", EGrad);
-        }
-        Vector tmp(n, n);
-        tmp.AlphaABaddBetaThis(1, x, GLOBAL::T, egf, GLOBAL::N, 0);
-        result->AlphaABaddBetaThis(1, tmp, GLOBAL::N, x, GLOBAL::N, 0);
-        return *result;
-	};
-
-	Vector &SPDManifold::EucHvToHvAF(const Variable &x, const Vector &etax, const Vector &exix, const Problem *prob, Vector *result) const
-	{
-        Vector tmp = x * x.Field("EGrad") * etax;
-        *result = x * exix * x + (tmp + tmp.GetTranspose()) / 2;
-        return *result;
-	};
-
-	Vector &SPDManifold::ObtainIntrAF(const Variable &x, const Vector &etax, Vector *result) const
-	{/* L^{-1} etax L^{-T}, where x = L L^T, etax is assumed to be a symmetric matrix. */
-        
-        if (!x.FieldsExist("_L"))
-        {
-            x.CholDecom();
-        }
-        
-        Vector LiE = etax.TriangleLinSol(x.Field("_L"));
-        Vector LiELiT = LiE.GetTranspose().TriangleLinSol(x.Field("_L"));
-        const realdp *LiELiTptr = LiELiT.ObtainReadData();
-        
-		realdp *resultptr = result->ObtainWriteEntireData();
-		integer idx = 0;
-		realdp r2 = static_cast<realdp> (sqrt(2.0));
-		for (integer i = 0; i < n; i++)
-		{
-			resultptr[idx] = LiELiTptr[i + i * n];
-			idx++;
-		}
-
-		for (integer i = 0; i < n; i++)
-		{
-			for (integer j = i + 1; j < n; j++)
-			{
-				resultptr[idx] = LiELiTptr[j + i * n] * r2;
-				idx++;
-			}
-		}
-        return *result;
-	};
-
-	Vector &SPDManifold::ObtainExtrAF(const Variable &x, const Vector &intretax, Vector *result) const
-	{
-        if (!x.FieldsExist("_L"))
-        {
-            x.CholDecom();
-        }
-        
-		const realdp *intretaxptr = intretax.ObtainReadData();
-		realdp *resultptr = result->ObtainWriteEntireData();
-
-		integer idx = 0;
-		realdp r2 = static_cast<realdp> (sqrt(2.0));
-		for (integer i = 0; i < n; i++)
-		{
-			resultptr[i + i * n] = intretaxptr[idx];
-			idx++;
-		}
-
-		for (integer i = 0; i < n; i++)
-		{
-			for (integer j = i + 1; j < n; j++)
-			{
-				resultptr[j + i * n] = intretaxptr[idx] / r2;
-				resultptr[i + j * n] = resultptr[j + i * n];
-				idx++;
-			}
-		}
-        
-        Vector tmp(n, n); tmp.AlphaABaddBetaThis(1, x.Field("_L"), GLOBAL::N, *result, GLOBAL::N, 0);
-        result->AlphaABaddBetaThis(1, tmp, GLOBAL::N, x.Field("_L"), GLOBAL::T, 0);
-        
-        return *result;
-	};
-
-	realdp SPDManifold::DistAF(const Variable &x1, const Variable &x2) const
-	{ /* dis(x, y) = |log(Lx^{-1} y Lx^{-T})|_F */
-		
-        if (!x1.FieldsExist("_L"))
-        {
-            x1.CholDecom();
-        }
-        
-        if (!x2.FieldsExist("_L"))
-        {
-            x2.CholDecom();
-        }
-        Vector tmp = x2.Field("_L").TriangleLinSol(x1.Field("_L"));
-        Vector tmp2(EMPTYEXTR); tmp2.AlphaABaddBetaThis(1, tmp, GLOBAL::N, tmp, GLOBAL::T, 0);
-        tmp2.EigenDecomSym();
-        Vector EigVals = tmp2.Field("_EigVal");
-        return EigVals.Fnorm();
-	};
-
-	Vector &SPDManifold::EucGradToGradEuc(const Variable &x, const Vector &egf, const Problem *prob, Vector *result) const
-	{
-        if (prob->GetUseHess())
-        {
-            /*The copy on write is necessary. The reason is that the egf may be from a component in a product of elements.
-            Therefore, if CopyOnWrite is not used, then the attached data in x and the product of elements share the same
-            memory. This may cause an issue: if the product of elements are released before the attached data in x, then
-            release the attached data in x would attempt to delete memory that has been released. This is an error!*/
-            Vector EGrad(egf);
-            EGrad.CopyOnWrite();
-            x.AddToFields("EGrad", EGrad);
-        }
-        *result = egf;
-        return *result;
-	};
-
-	Vector &SPDManifold::EucHvToHvEuc(const Variable &x, const Vector &etax, const Vector &exix, const Problem *prob, Vector *result) const
-	{
-        *result = exix;
-        return *result;
-	};
-
-    Vector &SPDManifold::VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
-    {
-        if (VecTran == SPDPARATRAN)
-            return ParallelTranslation(x, etax, y, xix, result);
-        
-        if (VecTran == SPDVTPARA)
-            return VectorTransportParallelization(x, etax, y, xix, result);
-
-        printf("Warning: the VectorTransport is not valid! Use vector transport by parallelization instead!");
-        return VectorTransportParallelization(x, etax, y, xix, result);
-    };
-
-    Vector &SPDManifold::ParallelTranslation(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
-    {
-        if (!x.FieldsExist("_L"))
-        {
-            x.CholDecom();
-        }
-        Vector exetax(EMPTYEXTR), exxix(EMPTYEXTR);
-        if(IsIntrApproach)
-        {
-            ObtainExtr(x, etax, &exetax);
-            ObtainExtr(x, xix, &exxix);
-        }
-        else
-        {
-            exetax = etax;
-            exxix = xix;
-        }
-        
-        Vector LiE = exetax.TriangleLinSol(x.Field("_L"));
-        Vector LiELiThalf = LiE.GetTranspose().TriangleLinSol(x.Field("_L"));
-        LiELiThalf.ScalarTimesThis(0.5);
-        Vector tmp = x.Field("_L") * LiELiThalf.ExpSym().TriangleLinSol(x.Field("_L"), GLOBAL::T).GetTranspose();
-        LiE.AlphaABaddBetaThis(0, tmp, GLOBAL::N, exxix, GLOBAL::N, 0); /*LiE is for temporary storage*/
-        result->AlphaABaddBetaThis(1, LiE, GLOBAL::N, tmp, GLOBAL::T, 0); /* *result = tmp * exxix * tmp.GetTranspose(); */
-        return *result;
-    };
-        
-    Vector &SPDManifold::VectorTransportParallelization(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
-    {
-        if(IsIntrApproach)
-        {
-            *result = xix;
-            return *result;
-        }
-        Vector tmp(EMPTYEXTR); ObtainIntr(x, xix, &tmp);
-        return ObtainExtr(y, tmp, result);
-    };
-
-	Vector &SPDManifold::ObtainIntrEuc(const Variable &x, const Vector &etax, Vector *result) const
-	{
-		const realdp *etaxTV = etax.ObtainReadData();
-		realdp *resultTV = result->ObtainWriteEntireData();
-		integer idx = 0;
-		realdp r2 = static_cast<realdp> (sqrt(2.0));
-		for (integer i = 0; i < n; i++)
-		{
-			resultTV[idx] = etaxTV[i + i * n];
-			idx++;
-		}
-
-		for (integer i = 0; i < n; i++)
-		{
-			for (integer j = i + 1; j < n; j++)
-			{
-				resultTV[idx] = etaxTV[j + i * n] * r2;
-				idx++;
-			}
-		}
-        return *result;
-	};
-
-	Vector &SPDManifold::ObtainExtrEuc(const Variable &x, const Vector &intretax, Vector *result) const
-	{
-		const realdp *intretaxTV = intretax.ObtainReadData();
-		realdp *resultTV = result->ObtainWriteEntireData();
-
-		integer idx = 0;
-		realdp r2 = static_cast<realdp> (sqrt(2.0));
-		for (integer i = 0; i < n; i++)
-		{
-			resultTV[i + i * n] = intretaxTV[idx];
-			idx++;
-		}
-
-		for (integer i = 0; i < n; i++)
-		{
-			for (integer j = i + 1; j < n; j++)
-			{
-				resultTV[j + i * n] = intretaxTV[idx] / r2;
-				resultTV[i + j * n] = resultTV[j + i * n];
-				idx++;
-			}
-		}
-        return *result;
-	};
-
-	realdp SPDManifold::DistEuc(const Variable &x1, const Variable &x2) const
-	{
-        return (x1 - x2).Fnorm();
-	};
-}; /*end of ROPTLIB namespace*/
+
+#include "Manifolds/SPDManifold.h"
+
+/*Define the namespace*/
+namespace ROPTLIB{
+
+	SPDManifold::SPDManifold(integer inn)
+	{
+		n = inn;
+		IsIntrApproach = true;
+		HasHHR = false;
+		name.assign("SPDManifold");
+		IntrinsicDim = n * (n + 1) / 2;
+		ExtrinsicDim = n * n;
+		metric = SPDAFFINEINVARIANCE;
+        retr = SPDSECONDORDER;
+        VecTran = SPDVTPARA;
+        EMPTYEXTR = Vector(n, n);
+        EMPTYINTR = Vector(IntrinsicDim);
+	};
+
+	SPDManifold::~SPDManifold(void)
+	{
+	};
+
+	void SPDManifold::ChooseParamsSet1(void)
+	{
+        IsIntrApproach = true;
+		metric = SPDAFFINEINVARIANCE;
+        retr = SPDSECONDORDER;
+        VecTran = SPDVTPARA;
+	};
+
+	void SPDManifold::ChooseParamsSet2(void)
+	{
+        IsIntrApproach = true;
+		metric = SPDEUCLIDEAN;
+        retr = SPDSECONDORDER;
+        VecTran = SPDVTPARA;
+	}
+
+    void SPDManifold::ChooseParamsSet3(void)
+    {
+        IsIntrApproach = false;
+        metric = SPDAFFINEINVARIANCE;
+        retr = SPDEXP;
+        VecTran = SPDPARATRAN;
+    };
+
+    void SPDManifold::ChooseParamsSet4(void)
+    {
+        IsIntrApproach = false;
+        metric = SPDEUCLIDEAN;
+        retr = SPDEXP;
+        VecTran = SPDPARATRAN;
+    }
+
+    realdp SPDManifold::Metric(const Variable &x, const Vector &etax, const Vector &xix) const
+    {
+        if(IsIntrApproach || metric == SPDEUCLIDEAN)
+            return etax.DotProduct(xix);
+        
+        if (metric == SPDAFFINEINVARIANCE)
+        {
+            Vector tmp = ((x % etax) / x);
+            return tmp.DotProduct(xix);
+        }
+        
+        printf("Warning: SPDManifold::metric has not been done!\n");
+        return etax.DotProduct(xix);
+    };
+
+    Variable SPDManifold::RandominManifold(void) const
+    {
+        Vector tmp(n, n); tmp.RandGaussian();
+        return tmp * tmp.GetTranspose();
+    };
+
+	void SPDManifold::CheckParams(void) const
+	{
+        std::string SPDMetricnames[SPDMETRICLENGTH] = { "EUCLIDEAN", "AFFINV" };
+        std::string SPDRetractionnames[SPDRETRACTIONLENGTH] = { "SPDEXP", "SPDSECONDORDER" };
+        std::string SPDVecTrannames[SPDVECTORTRANSPORTLENGTH] = { "SPDPARATRAN", "SPDVTPARA" };
+		Manifold::CheckParams();
+		printf("%s PARAMETERS:\n", name.c_str());
+		printf("row           :%15d,\t", n);
+		printf("col           :%15d\n", n);
+        printf("metric        :%15s,\t", SPDMetricnames[metric].c_str());
+        printf("Retraction    :%15s,\n", SPDRetractionnames[retr].c_str());
+        printf("VecTran       :%15s,\n", SPDVecTrannames[VecTran].c_str());
+	};
+
+	Vector &SPDManifold::ExtrProjection(const Variable &x, const Vector &etax, Vector *result) const
+	{
+        Vector inetax = etax;
+		const realdp *etaxptr = inetax.ObtainReadData();
+		realdp *resultptr = result->ObtainWriteEntireData();
+		for (integer i = 0; i < n; i++)
+		{
+			resultptr[i + i * n] = etaxptr[i + i * n];
+			for (integer j = i + 1; j < n; j++)
+			{
+				resultptr[i + j * n] = (etaxptr[i + j * n] + etaxptr[j + i * n]) * static_cast<realdp> (0.5);
+				resultptr[j + i * n] = resultptr[i + j * n];
+			}
+		}
+        return *result;
+	};
+
+	Vector &SPDManifold::EucGradToGrad(const Variable &x, const Vector &egf, const Problem *prob, Vector *result) const
+	{
+		if (metric == SPDAFFINEINVARIANCE)
+			return EucGradToGradAF(x, egf, prob, result);
+        
+		if (metric == SPDEUCLIDEAN)
+			return EucGradToGradEuc(x, egf, prob, result);
+
+        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
+        return EucGradToGradAF(x, egf, prob, result);
+	};
+
+	Vector &SPDManifold::EucHvToHv(const Variable &x, const Vector &etax, const Vector &exix, const Problem *prob, Vector *result) const
+	{
+		if (metric == SPDAFFINEINVARIANCE)
+			return EucHvToHvAF(x, etax, exix, prob, result);
+        
+        if (metric == SPDEUCLIDEAN)
+            return EucHvToHvEuc(x, etax, exix, prob, result);
+        
+        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
+        return EucHvToHvAF(x, etax, exix, prob, result);
+	};
+
+	Vector &SPDManifold::ObtainIntr(const Variable &x, const Vector &etax, Vector *result) const
+	{
+		if (metric == SPDAFFINEINVARIANCE)
+			return ObtainIntrAF(x, etax, result);
+        
+        if (metric == SPDEUCLIDEAN)
+            return ObtainIntrEuc(x, etax, result);
+
+        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
+        return ObtainIntrAF(x, etax, result);
+	};
+
+	Vector &SPDManifold::ObtainExtr(const Variable &x, const Vector &intretax, Vector *result) const
+	{
+		if (metric == SPDAFFINEINVARIANCE)
+			return ObtainExtrAF(x, intretax, result);
+        
+        if (metric == SPDEUCLIDEAN)
+            return ObtainExtrEuc(x, intretax, result);
+        
+        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
+        return ObtainExtrAF(x, intretax, result);
+	};
+
+	realdp SPDManifold::Dist(const Variable &x1, const Variable &x2) const
+	{
+		if (metric == SPDAFFINEINVARIANCE)
+			return DistAF(x1, x2);
+        
+        if (metric == SPDEUCLIDEAN)
+            return DistEuc(x1, x2);
+        
+        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
+        return DistAF(x1, x2);
+	};
+
+    Variable &SPDManifold::Retraction(const Variable &x, const Vector &etax, Variable *result) const
+    {
+        if (retr == SPDEXP)
+            return ExpRetraction(x, etax, result);
+        
+        if (retr == SPDSECONDORDER)
+            return SecOrdRetraction(x, etax, result);
+        
+        printf("Warning: the Riemannian retraction is not valid! Use the second order retraction instead!");
+        return SecOrdRetraction(x, etax, result);
+    };
+
+    Vector &SPDManifold::DiffRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
+    {
+        if (retr == SPDEXP)
+            return DiffExpRetraction(x, etax, y, xix, result, IsEtaXiSameDir);
+        
+        if (retr == SPDSECONDORDER)
+            return DiffSecOrdRetraction(x, etax, y, xix, result, IsEtaXiSameDir);
+        
+        printf("Warning: the Riemannian retraction is not valid! Use the second order retraction instead!");
+        return DiffSecOrdRetraction(x, etax, y, xix, result, IsEtaXiSameDir);
+    };
+
+    Variable &SPDManifold::ExpRetraction(const Variable &x, const Vector &etax, Variable *result) const
+    {
+        if (!x.FieldsExist("_L"))
+        {
+            x.CholDecom();
+        }
+        Vector exetax(EMPTYEXTR);
+        if(IsIntrApproach)
+            ObtainExtr(x, etax, &exetax);
+        else
+            exetax = etax;
+        
+        Vector LiE = exetax.TriangleLinSol(x.Field("_L"));
+        Vector LiELiT = LiE.GetTranspose().TriangleLinSol(x.Field("_L"));
+        Vector tmp(n, n);
+        tmp.AlphaABaddBetaThis(1, x.Field("_L"), GLOBAL::N, LiELiT.ExpSym(), GLOBAL::N, 0);
+        result->AlphaABaddBetaThis(1, tmp, GLOBAL::N, x.Field("_L"), GLOBAL::T, 0);
+        realdp *resultptr = result->ObtainWritePartialData();
+        
+        realdp tmpv = 0;
+        for(integer i = 0; i < n; i++)
+        {
+            for(integer j = i + 1; j < n; j++)
+            {
+                tmpv = (resultptr[i + j * n] + resultptr[j + i * n]) / 2;
+                resultptr[i + j * n] = tmpv;
+                resultptr[j + i * n] = tmpv;
+            }
+        }
+        
+        if (!result->FieldsExist("_L"))
+        {
+            result->CholDecom();
+        }
+        return *result;
+    };
+
+    Vector &SPDManifold::DiffExpRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
+    {
+        printf("Warning: SPDManifold::DiffExpRetraction has not been implemented yet!\n");
+        return Manifold::DiffRetraction(x, etax, y, xix, result, IsEtaXiSameDir);
+    };
+
+	Variable &SPDManifold::SecOrdRetraction(const Variable &x, const Vector &etax, Variable *result) const
+	{ /* result = x + etx + 0.5 * etax * x^{-1} * etax */
+        if (!x.FieldsExist("_L"))
+        {
+            x.CholDecom();
+        }
+        Vector exetax(EMPTYEXTR);
+        if(IsIntrApproach)
+            ObtainExtr(x, etax, &exetax);
+        else
+            exetax = etax;
+        
+        Vector LiE = exetax.TriangleLinSol(x.Field("_L"));
+        
+        result->AlphaABaddBetaThis(0.5, LiE, GLOBAL::T, LiE, GLOBAL::N, 0);
+        
+        result->AlphaXaddThis(1, exetax);
+        result->AlphaXaddThis(1, x);
+        
+        if (!result->FieldsExist("_L"))
+        {
+            result->CholDecom();
+        }
+        return *result;
+	};
+
+	Vector &SPDManifold::DiffSecOrdRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
+	{ /* xix + 0.5 xix x^{-1} etax + 0.5 etax x^{-1} xix */
+        realdp nxix = std::sqrt(Metric(x, xix, xix));
+
+        if (!x.FieldsExist("_L"))
+        {
+            x.CholDecom();
+        }
+        Vector exetax(EMPTYEXTR), exxix(EMPTYEXTR);
+        if(IsIntrApproach)
+        {
+            ObtainExtr(x, etax, &exetax);
+            ObtainExtr(x, xix, &exxix);
+        }
+        else
+        {
+            exetax = etax;
+            exxix = xix;
+        }
+        Vector LiE = exetax.TriangleLinSol(x.Field("_L"));
+        Vector LiX = exxix.TriangleLinSol(x.Field("_L"));
+        Vector exresult(EMPTYEXTR);
+        exresult.AlphaABaddBetaThis(1, LiE, GLOBAL::T, LiX, GLOBAL::N, 0);
+        realdp *exresultptr = exresult.ObtainWritePartialData();
+        for (integer i = 0; i < n; i++)
+        {
+            for (integer j = i + 1; j < n; j++)
+            {
+                exresultptr[j + i * n] = (exresultptr[j + i * n] + exresultptr[i + j * n]) * static_cast<realdp> (0.5);
+                exresultptr[i + j * n] = exresultptr[j + i * n];
+            }
+        }
+        exresult.AlphaXaddThis(1, exxix);
+        
+        if(IsIntrApproach)
+            ObtainIntr(y, exresult, result);
+        else
+            *result = exresult;
+
+        if (IsEtaXiSameDir && HasHHR)
+        {
+            Vector beta(3);
+            realdp *betaptr = beta.ObtainWriteEntireData();
+            realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
+            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
+            betaptr[1] = Metric(x, etax, etax);
+            betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
+            etax.AddToFields("beta", beta);
+            
+            if (HasHHR)
+            {
+                etax.AddToFields("betaTReta", (*result) * (betaptr[0] * EtatoXi));
+            }
+        }
+        return *result;
+	};
+
+	Vector &SPDManifold::coTangentVector(const Variable &x, const Vector &etax, const Variable &y, const Vector &xiy, Vector *result) const
+	{
+		printf("SPDManifold::coTangentVector has not been done!\n");
+        return Manifold::coTangentVector(x, etax, y, xiy, result);
+	};
+
+	realdp SPDManifold::Beta(const Variable &x, const Vector &etax) const
+	{
+        if (!HasHHR)
+            return 1;
+        
+        assert(etax.FieldsExist("beta"));
+
+        /*If the beta has been computed in differentiated retraction, then obtain it.
+        Beta should be almost always computed before.*/
+        Vector beta = etax.Field("beta");
+        const realdp *betav = beta.ObtainReadData();
+        return betav[0];
+	};
+
+	Vector &SPDManifold::EucGradToGradAF(const Variable &x, const Vector &egf, const Problem *prob, Vector *result) const
+	{
+        if (prob->GetUseHess())
+        {
+            /*The copy on write is necessary. The reason is that the egf may be from a component in a product of elements.
+            Therefore, if CopyOnWrite is not used, then the attached data in x and the product of elements share the same
+            memory. This may cause an issue: if the product of elements are released before the attached data in x, then
+            release the attached data in x would attempt to delete memory that has been released. This is an error!*/
+            Vector EGrad(egf);
+            EGrad.CopyOnWrite();
+            x.AddToFields("EGrad", EGrad);
+        }
+        Vector tmp(n, n);
+        tmp.AlphaABaddBetaThis(1, x, GLOBAL::T, egf, GLOBAL::N, 0);
+        result->AlphaABaddBetaThis(1, tmp, GLOBAL::N, x, GLOBAL::N, 0);
+        return *result;
+	};
+
+	Vector &SPDManifold::EucHvToHvAF(const Variable &x, const Vector &etax, const Vector &exix, const Problem *prob, Vector *result) const
+	{
+        Vector tmp = x * x.Field("EGrad") * etax;
+        *result = x * exix * x + (tmp + tmp.GetTranspose()) / 2;
+        return *result;
+	};
+
+	Vector &SPDManifold::ObtainIntrAF(const Variable &x, const Vector &etax, Vector *result) const
+	{/* L^{-1} etax L^{-T}, where x = L L^T, etax is assumed to be a symmetric matrix. */
+        
+        if (!x.FieldsExist("_L"))
+        {
+            x.CholDecom();
+        }
+        
+        Vector LiE = etax.TriangleLinSol(x.Field("_L"));
+        Vector LiELiT = LiE.GetTranspose().TriangleLinSol(x.Field("_L"));
+        const realdp *LiELiTptr = LiELiT.ObtainReadData();
+        
+		realdp *resultptr = result->ObtainWriteEntireData();
+		integer idx = 0;
+		realdp r2 = static_cast<realdp> (sqrt(2.0));
+		for (integer i = 0; i < n; i++)
+		{
+			resultptr[idx] = LiELiTptr[i + i * n];
+			idx++;
+		}
+
+		for (integer i = 0; i < n; i++)
+		{
+			for (integer j = i + 1; j < n; j++)
+			{
+				resultptr[idx] = LiELiTptr[j + i * n] * r2;
+				idx++;
+			}
+		}
+        return *result;
+	};
+
+	Vector &SPDManifold::ObtainExtrAF(const Variable &x, const Vector &intretax, Vector *result) const
+	{
+        if (!x.FieldsExist("_L"))
+        {
+            x.CholDecom();
+        }
+        
+		const realdp *intretaxptr = intretax.ObtainReadData();
+		realdp *resultptr = result->ObtainWriteEntireData();
+
+		integer idx = 0;
+		realdp r2 = static_cast<realdp> (sqrt(2.0));
+		for (integer i = 0; i < n; i++)
+		{
+			resultptr[i + i * n] = intretaxptr[idx];
+			idx++;
+		}
+
+		for (integer i = 0; i < n; i++)
+		{
+			for (integer j = i + 1; j < n; j++)
+			{
+				resultptr[j + i * n] = intretaxptr[idx] / r2;
+				resultptr[i + j * n] = resultptr[j + i * n];
+				idx++;
+			}
+		}
+        
+        Vector tmp(n, n); tmp.AlphaABaddBetaThis(1, x.Field("_L"), GLOBAL::N, *result, GLOBAL::N, 0);
+        result->AlphaABaddBetaThis(1, tmp, GLOBAL::N, x.Field("_L"), GLOBAL::T, 0);
+        
+        return *result;
+	};
+
+	realdp SPDManifold::DistAF(const Variable &x1, const Variable &x2) const
+	{ /* dis(x, y) = |log(Lx^{-1} y Lx^{-T})|_F */
+		
+        if (!x1.FieldsExist("_L"))
+        {
+            x1.CholDecom();
+        }
+        
+        if (!x2.FieldsExist("_L"))
+        {
+            x2.CholDecom();
+        }
+        Vector tmp = x2.Field("_L").TriangleLinSol(x1.Field("_L"));
+        Vector tmp2(EMPTYEXTR); tmp2.AlphaABaddBetaThis(1, tmp, GLOBAL::N, tmp, GLOBAL::T, 0);
+        tmp2.EigenDecomSym();
+        Vector EigVals = tmp2.Field("_EigVal");
+        realdp *EigValsptr = EigVals.ObtainWritePartialData();
+        for (integer i = 0; i < n; i++)
+            EigValsptr[i] = std::log(EigValsptr[i]);
+        return EigVals.Fnorm();
+	};
+
+	Vector &SPDManifold::EucGradToGradEuc(const Variable &x, const Vector &egf, const Problem *prob, Vector *result) const
+	{
+        if (prob->GetUseHess())
+        {
+            /*The copy on write is necessary. The reason is that the egf may be from a component in a product of elements.
+            Therefore, if CopyOnWrite is not used, then the attached data in x and the product of elements share the same
+            memory. This may cause an issue: if the product of elements are released before the attached data in x, then
+            release the attached data in x would attempt to delete memory that has been released. This is an error!*/
+            Vector EGrad(egf);
+            EGrad.CopyOnWrite();
+            x.AddToFields("EGrad", EGrad);
+        }
+        *result = egf;
+        return *result;
+	};
+
+	Vector &SPDManifold::EucHvToHvEuc(const Variable &x, const Vector &etax, const Vector &exix, const Problem *prob, Vector *result) const
+	{
+        *result = exix;
+        return *result;
+	};
+
+    Vector &SPDManifold::VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
+    {
+        if (VecTran == SPDPARATRAN)
+            return ParallelTranslation(x, etax, y, xix, result);
+        
+        if (VecTran == SPDVTPARA)
+            return VectorTransportParallelization(x, etax, y, xix, result);
+
+        printf("Warning: the VectorTransport is not valid! Use vector transport by parallelization instead!");
+        return VectorTransportParallelization(x, etax, y, xix, result);
+    };
+
+    Vector &SPDManifold::ParallelTranslation(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
+    {
+        if (!x.FieldsExist("_L"))
+        {
+            x.CholDecom();
+        }
+        Vector exetax(EMPTYEXTR), exxix(EMPTYEXTR);
+        if(IsIntrApproach)
+        {
+            ObtainExtr(x, etax, &exetax);
+            ObtainExtr(x, xix, &exxix);
+        }
+        else
+        {
+            exetax = etax;
+            exxix = xix;
+        }
+        
+        Vector LiE = exetax.TriangleLinSol(x.Field("_L"));
+        Vector LiELiThalf = LiE.GetTranspose().TriangleLinSol(x.Field("_L"));
+        LiELiThalf.ScalarTimesThis(0.5);
+        Vector tmp = x.Field("_L") * LiELiThalf.ExpSym().TriangleLinSol(x.Field("_L"), GLOBAL::T).GetTranspose();
+        LiE.AlphaABaddBetaThis(0, tmp, GLOBAL::N, exxix, GLOBAL::N, 0); /*LiE is for temporary storage*/
+        result->AlphaABaddBetaThis(1, LiE, GLOBAL::N, tmp, GLOBAL::T, 0); /* *result = tmp * exxix * tmp.GetTranspose(); */
+        return *result;
+    };
+        
+    Vector &SPDManifold::VectorTransportParallelization(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
+    {
+        if(IsIntrApproach)
+        {
+            *result = xix;
+            return *result;
+        }
+        Vector tmp(EMPTYEXTR); ObtainIntr(x, xix, &tmp);
+        return ObtainExtr(y, tmp, result);
+    };
+
+	Vector &SPDManifold::ObtainIntrEuc(const Variable &x, const Vector &etax, Vector *result) const
+	{
+		const realdp *etaxTV = etax.ObtainReadData();
+		realdp *resultTV = result->ObtainWriteEntireData();
+		integer idx = 0;
+		realdp r2 = static_cast<realdp> (sqrt(2.0));
+		for (integer i = 0; i < n; i++)
+		{
+			resultTV[idx] = etaxTV[i + i * n];
+			idx++;
+		}
+
+		for (integer i = 0; i < n; i++)
+		{
+			for (integer j = i + 1; j < n; j++)
+			{
+				resultTV[idx] = etaxTV[j + i * n] * r2;
+				idx++;
+			}
+		}
+        return *result;
+	};
+
+	Vector &SPDManifold::ObtainExtrEuc(const Variable &x, const Vector &intretax, Vector *result) const
+	{
+		const realdp *intretaxTV = intretax.ObtainReadData();
+		realdp *resultTV = result->ObtainWriteEntireData();
+
+		integer idx = 0;
+		realdp r2 = static_cast<realdp> (sqrt(2.0));
+		for (integer i = 0; i < n; i++)
+		{
+			resultTV[i + i * n] = intretaxTV[idx];
+			idx++;
+		}
+
+		for (integer i = 0; i < n; i++)
+		{
+			for (integer j = i + 1; j < n; j++)
+			{
+				resultTV[j + i * n] = intretaxTV[idx] / r2;
+				resultTV[i + j * n] = resultTV[j + i * n];
+				idx++;
+			}
+		}
+        return *result;
+	};
+
+	realdp SPDManifold::DistEuc(const Variable &x1, const Variable &x2) const
+	{
+        return (x1 - x2).Fnorm();
+	};
+}; /*end of ROPTLIB namespace*/
-- 
2.43.0


From 0f998f4257eb5e0ec6983217f8e39d7f64caaae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 15/92] fix: parallel translation on the SPD manifold is not
 identically zero

---
 Manifolds/SPDManifold.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index 19c3425..a9b8d9a 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -506,7 +506,7 @@ namespace ROPTLIB{
         Vector LiELiThalf = LiE.GetTranspose().TriangleLinSol(x.Field("_L"));
         LiELiThalf.ScalarTimesThis(0.5);
         Vector tmp = x.Field("_L") * LiELiThalf.ExpSym().TriangleLinSol(x.Field("_L"), GLOBAL::T).GetTranspose();
-        LiE.AlphaABaddBetaThis(0, tmp, GLOBAL::N, exxix, GLOBAL::N, 0); /*LiE is for temporary storage*/
+        LiE.AlphaABaddBetaThis(1, tmp, GLOBAL::N, exxix, GLOBAL::N, 0); /*LiE is for temporary storage*/
         result->AlphaABaddBetaThis(1, LiE, GLOBAL::N, tmp, GLOBAL::T, 0); /* *result = tmp * exxix * tmp.GetTranspose(); */
         return *result;
     };
-- 
2.43.0


From d27eea6e8c241709a307f02303bc46e159ff9976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 16/92] fix: CStiefel::ObtainNorVerExtr initialises the
 imaginary part of the diagonal

---
 Manifolds/CStiefel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index 7647dda..015aa43 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -389,6 +389,7 @@ namespace ROPTLIB{
         for(integer i = 0; i < p; i++)
         {
             xTetaxptr[i + i * p].r = intretaxptr[idx];
+            xTetaxptr[i + i * p].i = 0;
             idx++;
         }
         for(integer i = 0; i < p; i++)
-- 
2.43.0


From 49e144d46d10f190f2a7a89dd50cb6c67685bf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 17/92] fix: FixedRankQ2F sets the dimension of the manifold

---
 Manifolds/FixedRankQ2F.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Manifolds/FixedRankQ2F.cpp b/Manifolds/FixedRankQ2F.cpp
index 7691906..34a3ab4 100644
--- a/Manifolds/FixedRankQ2F.cpp
+++ b/Manifolds/FixedRankQ2F.cpp
@@ -12,6 +12,8 @@ namespace ROPTLIB{
 		r = inr;
 		name.assign("Fixed-rank manifold by 2-factor form");
 		IsIntrApproach = true;
+        IntrinsicDim = (m + n - r) * r;
+        ExtrinsicDim = (m + n) * r;
         Vector F1(m, r), F2(n, r);
         Vector Prod(2, &F1, 1, &F2, 1);
         EMPTYEXTR = Prod;
-- 
2.43.0


From bab28bd229773a6dd881605ed0238337d3e3488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 18/92] fix: InvPolarRetraction on CStiefel is complex and
 returns the representation in use

---
 Manifolds/CStiefel.cpp | 9 +++++++--
 Manifolds/Stiefel.cpp  | 7 ++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index 015aa43..2a89a5f 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -526,12 +526,17 @@ namespace ROPTLIB{
 
     Vector &CStiefel::InvPolarRetraction(const Variable &x, const Variable &y, Vector *result) const
     {
-        Vector A(p, p); A.AlphaABaddBetaThis(1, x, GLOBAL::C, y, GLOBAL::N, 0); /* A = x.GetTranspose() * y; */
+        Vector A(p, p, "complex"); A.AlphaABaddBetaThis(1, x, GLOBAL::C, y, GLOBAL::N, 0); /* A = x.GetTranspose() * y; */
 
-        Vector tIp(p, p); tIp.SetToIdentity(); tIp = 2 * tIp;
+        Vector tIp(p, p, "complex"); tIp.SetToIdentity(); tIp = 2 * tIp;
         Vector soln = tIp.SYL(A, A.GetTranspose());
         *result = x; result->AlphaABaddBetaThis(1, y, GLOBAL::N, soln, GLOBAL::N, -1); /* y * tIp.SYL(A, A.GetTranspose()) - x; */
 
+        if(IsIntrApproach)
+        {
+            Vector exresult(*result);
+            ObtainIntr(x, exresult, result);
+        }
         return *result;
     };
 
diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index fad1802..ae09d6e 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -585,7 +585,12 @@ namespace ROPTLIB{
         Vector tIp(p, p); tIp.SetToIdentity(); tIp = 2 * tIp;
         Vector soln = tIp.SYL(A, A.GetTranspose());
         *result = x; result->AlphaABaddBetaThis(1, y, GLOBAL::N, soln, GLOBAL::N, -1); /* y * tIp.SYL(A, A.GetTranspose()) - x; */
-        
+
+        if(IsIntrApproach)
+        {
+            Vector exresult(*result);
+            ObtainIntr(x, exresult, result);
+        }
         return *result;
     };
 
-- 
2.43.0


From 2f20d2747b0110f753434c9c9b61d64e1e3598a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 19/92] fix: exponential map of the sphere and its derivatives
 are defined for zero steps

---
 Manifolds/Sphere.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index 40d17f5..611d7e5 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -58,7 +58,10 @@ namespace ROPTLIB{
 	Variable &Sphere::ExpRetraction(const Variable &x, const Vector &etax, Variable *result) const
 	{
 		realdp normetax = sqrt(Metric(x, etax, etax));
-		VectorLinearCombination(x, cos(normetax), x, sin(normetax) / normetax, etax, result);
+		if (normetax < std::numeric_limits<realdp>::epsilon())
+			VectorLinearCombination(x, 1, x, 1, etax, result);
+		else
+			VectorLinearCombination(x, cos(normetax), x, sin(normetax) / normetax, etax, result);
 		realdp normresult = sqrt(Metric(x, *result, *result));
 		return ScalarTimesVector(x, static_cast<realdp> (1) / normresult, *result, result);
 	};
@@ -68,6 +71,9 @@ namespace ROPTLIB{
 		realdp xiytx = Metric(x, x, xiy);
 		realdp xiytetax = Metric(x, xiy, etax);
 		realdp normetax = sqrt(Metric(x, etax, etax));
+		if (normetax < std::numeric_limits<realdp>::epsilon())
+			return Projection(x, xiy, result);
+
 		realdp sinnormetax = sin(normetax);
 		realdp cosnormetax = cos(normetax);
 		VectorLinearCombination(x, (xiytetax * cosnormetax / normetax
@@ -80,6 +86,9 @@ namespace ROPTLIB{
 		realdp nxix = std::sqrt(Metric(x, xix, xix)); /*xix and result may be the same*/
 		realdp etaxtxix = Metric(x, etax, xix);
 		realdp normetax = sqrt(Metric(x, etax, etax));
+		if (normetax < std::numeric_limits<realdp>::epsilon())
+			return Projection(y, xix, result);
+
 		realdp sinnormetax = sin(normetax);
         VectorLinearCombination(x, -sinnormetax * etaxtxix / normetax, x, sinnormetax / normetax, xix, result);
         ScalarVectorAddVector(x, (cos(normetax) - sinnormetax / normetax) * etaxtxix / normetax / normetax, etax, *result, result);
-- 
2.43.0


From 57e51d7b90e6a5714213e11d3520d876a305a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 20/92] fix: Sphere::ExpHInvTran passes the sizes of the
 operator in the right order

---
 Manifolds/Sphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index 611d7e5..4aaeef8 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -149,7 +149,7 @@ namespace ROPTLIB{
 		realdp *resultL = result->ObtainWritePartialData();
 		/* resultL(:, start : start + length - 1) <- scalar * Hxpy * xv^T + resultL(:, start : start + length - 1),
 		details: www.netlib.org/lapack/explore-html/dc/da8/ger_8f.html */
-		ger_(&length, &ell, &scalar, Hxpy, &GLOBAL::IONE, const_cast<realdp *> (xv), &GLOBAL::IONE, resultL + start * ell, &ell);
+		ger_(&ell, &length, &scalar, Hxpy, &GLOBAL::IONE, const_cast<realdp *> (xv), &GLOBAL::IONE, resultL + start * ell, &ell);
 
 		delete[] Hxpy;
         return *result;
-- 
2.43.0


From 4fa015b8215972586a396dbad81443234be16a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 21/92] fix: Beta returns the scalar stored by DiffRetraction
 for every manifold

---
 Manifolds/Manifold.cpp       | 4 ++++
 Manifolds/MultiManifolds.cpp | 6 +++---
 Manifolds/MultiManifolds.h   | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 20164bf..fd6b71b 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -160,6 +160,10 @@ namespace ROPTLIB{
         #ifdef CHECKMANIFOLDOVERRIDDEN
                 printf("Manifold::Beta has not been overridden!\n");
         #endif
+		/*If the beta has been computed in differentiated retraction, then obtain it.*/
+		if (HasHHR && etax.FieldsExist("beta"))
+			return etax.Field("beta").ObtainReadData()[0];
+
 		return 1;
 	};
 
diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index f54dcaa..936dc26 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -266,7 +266,7 @@ namespace ROPTLIB{
         return *result;
 	};
 
-	realdp MultiManifolds::Beta(const Variable &x, Vector &etax) const
+	realdp MultiManifolds::Beta(const Variable &x, const Vector &etax) const
 	{
 		if (!HasHHR)
 			return 1;
@@ -283,9 +283,9 @@ namespace ROPTLIB{
 		{
 			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
 			{
-				if (x.GetElement(j).FieldsExist("beta"))
+				if (etax.GetElement(j).FieldsExist("beta"))
 				{
-					betav = x.GetElement(j).Field("beta").ObtainReadData();
+					betav = etax.GetElement(j).Field("beta").ObtainReadData();
 					numerator += betav[1];
 					denominator += betav[2];
 				}
diff --git a/Manifolds/MultiManifolds.h b/Manifolds/MultiManifolds.h
index b10c763..0b0490e 100644
--- a/Manifolds/MultiManifolds.h
+++ b/Manifolds/MultiManifolds.h
@@ -121,7 +121,7 @@ namespace ROPTLIB{
 		/*computes beta = \|etax\| / \|\mathcal{T}_{R_etax} etax\|
 		Default: etax = (etax_1, dots, eta_n);
 		beta = \sqrt(sum \|eta_i\|_2^2) / \sqrt(sum \|\mathcal{T}_{R_{etax_i}} etax_i\|) */
-        virtual realdp Beta(const Variable &x, Vector &etax) const;
+        virtual realdp Beta(const Variable &x, const Vector &etax) const;
 
 		/*compute the distance between two points on the manifold.
 		Default: sqrt(dist_M1(x1_1, x2_2)^2 + dist_M2(x1_2, x2_2)^2 + ... + dist_M1(x1_n, x2_n)^2)
-- 
2.43.0


From 7742d504a689f67f6b1aa8bfe1d988abc2784104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 22/92] fix: InverseVectorTransport of FixedRankQ2F and
 CFixedRankQ2F reads the coordinates at y

---
 Manifolds/CFixedRankQ2F.cpp | 2 +-
 Manifolds/FixedRankQ2F.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CFixedRankQ2F.cpp b/Manifolds/CFixedRankQ2F.cpp
index 9842671..7835764 100644
--- a/Manifolds/CFixedRankQ2F.cpp
+++ b/Manifolds/CFixedRankQ2F.cpp
@@ -381,7 +381,7 @@ namespace ROPTLIB{
             return *result;
         }
         
-        Vector inxiy(EMPTYINTR); ObtainIntr(x, xiy, &inxiy);
+        Vector inxiy(EMPTYINTR); ObtainIntr(y, xiy, &inxiy);
         return ObtainExtr(x, inxiy, result);
     };
 
diff --git a/Manifolds/FixedRankQ2F.cpp b/Manifolds/FixedRankQ2F.cpp
index 34a3ab4..d623f7e 100644
--- a/Manifolds/FixedRankQ2F.cpp
+++ b/Manifolds/FixedRankQ2F.cpp
@@ -355,7 +355,7 @@ namespace ROPTLIB{
             return *result;
         }
         
-        Vector inxiy(EMPTYINTR); ObtainIntr(x, xiy, &inxiy);
+        Vector inxiy(EMPTYINTR); ObtainIntr(y, xiy, &inxiy);
         return ObtainExtr(x, inxiy, result);
     };
 
-- 
2.43.0


From 41eaee47c77ce592d1b7721d0f56d6abffbe89d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 23/92] fix: LinearOPEEta accepts a complex result element

---
 Manifolds/Manifold.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index fd6b71b..8f9c348 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -27,6 +27,7 @@ namespace ROPTLIB{
         bool etaxiscomplex = etax.Getiscomplex();
         etax.Setiscomplex(false);
         Vector etaxreshape = etax; etaxreshape.Reshape(etax.Getlength());
+        result->Setiscomplex(false);
         result->AlphaABaddBetaThis(1, Hx, GLOBAL::N, etaxreshape, GLOBAL::N, 0);
         etax.Setiscomplex(etaxiscomplex);
         result->Setiscomplex(etaxiscomplex);
-- 
2.43.0


From 66f225b4d95020d6b79b73137c539d6267cd31dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 24/92] fix: TranHInvTran of SymFixedRankQ and CSymFixedRankQ
 applies the locking transport to the operator

---
 Manifolds/CSymFixedRankQ.cpp | 2 +-
 Manifolds/SymFixedRankQ.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CSymFixedRankQ.cpp b/Manifolds/CSymFixedRankQ.cpp
index 25e9b52..5351e91 100644
--- a/Manifolds/CSymFixedRankQ.cpp
+++ b/Manifolds/CSymFixedRankQ.cpp
@@ -236,7 +236,7 @@ namespace ROPTLIB{
         }
 
         if (HasHHR)
-            return LCVectorTransport(x, etax, y, Hx, result);
+            return LCTranHInvTran(x, etax, y, Hx, result);
 
         printf("Error: CSymFixedRankQ::TranHInvTran has not been done!\n");
         return Manifold::TranHInvTran(x, etax, y, Hx, result);
diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index f2187ce..13b2bf4 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -287,7 +287,7 @@ namespace ROPTLIB{
         }
 
         if (HasHHR)
-            return LCVectorTransport(x, etax, y, Hx, result);
+            return LCTranHInvTran(x, etax, y, Hx, result);
 
         printf("Error: TranHInvTran has not been done!\n");
         return Manifold::TranHInvTran(x, etax, y, Hx, result);
-- 
2.43.0


From 980e378d8d85dec9b9e019c5ca4842fdc920ae38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 25/92] fix: SymFixedRankQ::ObtainExtrQEUC does not need a
 previous call of ObtainIntrQEUC

---
 Manifolds/SymFixedRankQ.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index 13b2bf4..51c53a2 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -699,6 +699,12 @@ namespace ROPTLIB{
         }
         
         integer dim = p * (p + 1) / 2;
+        if(!x.FieldsExist("BL"))
+        {/*BL depends on x only and is computed in ObtainIntrQEUC*/
+            Vector zero(n, p), intrzero(EMPTYINTR);
+            zero.SetToZeros();
+            ObtainIntrQEUC(x, zero, &intrzero);
+        }
         Vector BL = x.Field("BL");
         
         Vector tmp = BL.GetTranspose() % intretax.GetSubmatrix(0, dim - 1, 0, 0);
-- 
2.43.0


From 35b84cfd911fcce20dde7c057431421601557a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 26/92] fix: locking vector transport of a zero vector or along
 a zero step is not NaN, result may alias xix

---
 Manifolds/Manifold.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 8f9c348..f18ecd8 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -709,6 +709,16 @@ namespace ROPTLIB{
     {
         Vector eps1(etax), nu1(etax), nu2(etax);
         
+        if (!(Metric(x, etax, etax) > 0))
+        {/*For a zero step, there is nothing to lock. nu1 and nu2 are zero vectors.*/
+            Element zerotau(2);
+            zerotau.SetToZeros();
+            etax.AddToFields("tau1tau2", zerotau);
+            etax.AddToFields("nu1", nu1);
+            etax.AddToFields("nu2", nu2);
+            return;
+        }
+        
         if (!etax.FieldsExist("beta") || !etax.FieldsExist("betaTReta"))
         {
             DiffRetraction(x, etax, y, etax, &eps1, true);
@@ -734,8 +744,11 @@ namespace ROPTLIB{
         {
             Obtainnu1nu2forLC(x, etax, y);
         }
+        realdp nxixsq = Metric(x, xix, xix); /*xix and result may be the same*/
         HasHHR = false; VectorTransport(x, etax, y, xix, result); HasHHR = true;
-        ScalarTimesVector(y, sqrt(Metric(x, xix, xix) / Metric(y, *result, *result)), *result, result);
+        realdp nresultsq = Metric(y, *result, *result);
+        if (nresultsq > 0)
+            ScalarTimesVector(y, sqrt(nxixsq / nresultsq), *result, result);
         
         Element tau1tau2 = etax.Field("tau1tau2");
         const realdp *tau1tau2ptr = tau1tau2.ObtainReadData();
-- 
2.43.0


From 8655221cc6f6ecda7df97ab96e10b5fb0ad01ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 27/92] fix: MultiManifolds::TranHInvTran starts from Hx

---
 Manifolds/MultiManifolds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 936dc26..c978da9 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -387,7 +387,7 @@ namespace ROPTLIB{
 		if (HasHHR)
 			return LCTranHInvTran(x, etax, y, Hx, result);
 
-        result->CopyOnWrite();
+        *result = Hx;
         
 		integer start, end = 0;
 		for (integer i = 0; i < numoftypes; i++)
-- 
2.43.0


From 84be92c1b2bd6435f88768e5538182374495f8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 28/92] fix: MultiManifolds retractions restore the
 representation of their components

---
 Manifolds/MultiManifolds.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index c978da9..914a0b2 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -214,9 +214,10 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                bool componentIsIntr = manifolds[i]->GetIsIntrinsic();
                 manifolds[i]->SetIsIntrApproach(false);
                 manifolds[i]->Retraction(x.GetElement(j), etax.GetElement(j), &(result->GetElement(j)));
-                manifolds[i]->SetIsIntrApproach(true);
+                manifolds[i]->SetIsIntrApproach(componentIsIntr);
             }
         }
         return *result;
@@ -241,9 +242,10 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                bool componentIsIntr = manifolds[i]->GetIsIntrinsic();
                 manifolds[i]->SetIsIntrApproach(false);
                 manifolds[i]->InvRetraction(x.GetElement(j), y.GetElement(j), &(result->GetElement(j)));
-                manifolds[i]->SetIsIntrApproach(true);
+                manifolds[i]->SetIsIntrApproach(componentIsIntr);
             }
         }
         
-- 
2.43.0


From cb509d826e43aeddc84684ee756d2f74d497b372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 29/92] fix: MultiManifolds::EucGradToGrad hands the fields of
 the gradient to the components it reads

---
 Manifolds/MultiManifolds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 914a0b2..1fa3cdb 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -482,7 +482,7 @@ namespace ROPTLIB{
         {
             for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
-                egf.CopyFieldsTo(egf.GetElement(j));
+                inegf.CopyFieldsTo(inegf.GetElement(j));
                 manifolds[i]->EucGradToGrad(x.GetElement(j), inegf.GetElement(j), prob, &(result->GetElement(j)));
             }
         }
-- 
2.43.0


From fa107e4befa1ae6b8fb1499acb614de81b6d2eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 30/92] fix: Cayley retraction and transports use the extrinsic
 vector when the intrinsic representation is in use

---
 Manifolds/Stiefel.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index ae09d6e..91dc1cd 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -740,10 +740,10 @@ namespace ROPTLIB{
         realdp *Mk3ptr = Mk3.ObtainWriteEntireData();
         realdp *LUPptr = LUP.ObtainWriteEntireData();
         realdp *Uptr = U.ObtainWriteEntireData();
-        Vector Mk211(p, p); Mk211.AlphaABaddBetaThis(0.5, x, GLOBAL::T, etax, GLOBAL::N, 0); /* Mk211 = 0.5 * x.GetTranspose() * etax; */
+        Vector Mk211(p, p); Mk211.AlphaABaddBetaThis(0.5, x, GLOBAL::T, exetax, GLOBAL::N, 0); /* Mk211 = 0.5 * x.GetTranspose() * etax; */
         
 		const realdp *xptr = x.ObtainReadData();
-		const realdp *etaxptr = etax.ObtainReadData();
+		const realdp *etaxptr = exetax.ObtainReadData();
 
 		integer P = p, N = n, P2 = p * 2;
 		realdp half = 0.5;
@@ -858,11 +858,11 @@ namespace ROPTLIB{
 
 			delete[] Mk2Mk3;
             if(IsIntrApproach)
-                ObtainIntr(x, exresult, result);
+                ObtainIntr(y, exresult, result);
             else
                 *result = exresult;
             
-			ScalarTimesVector(x, sqrt(nxixsq / Metric(x, etax, etax)), *result, result);
+			ScalarTimesVector(y, sqrt(nxixsq / Metric(x, etax, etax)), *result, result);
 
             if (IsEtaXiSameDir && HasHHR)
             {
@@ -903,7 +903,7 @@ namespace ROPTLIB{
 		copy_(&length, const_cast<realdp *> (Uptr + n * p), &GLOBAL::IONE, V, &GLOBAL::IONE);
 		copy_(&length, const_cast<realdp *> (Uptr), &GLOBAL::IONE, V + n * p, &GLOBAL::IONE);
 		scal_(&length, &GLOBAL::DNONE, V + n * p, &GLOBAL::IONE);
-		const realdp *xixptr = xix.ObtainReadData();
+		const realdp *xixptr = exxix.ObtainReadData();
 		integer N = n, P = p, P2 = p * 2;
 		gemm_(GLOBAL::T, GLOBAL::N, &P2, &P, &N, &GLOBAL::DONE, V, &N, const_cast<realdp *> (xixptr), &N, &GLOBAL::DZERO, Vtxix, &P2);
 
@@ -916,7 +916,7 @@ namespace ROPTLIB{
 			printf("Warning: getrs in Stiefel::DiffCayleyRetraction failed!\n");
 		delete[] Perm;
 
-        Vector exresult(xix);
+        Vector exresult(exxix);
 		realdp *exresultptr = exresult.ObtainWritePartialData();
 		gemm_(GLOBAL::N, GLOBAL::N, &N, &P, &P2, &GLOBAL::DONE, const_cast<realdp *> (Uptr), &N, Vtxix, &P2, &GLOBAL::DONE, exresultptr, &N);
 		delete[] V;
@@ -944,7 +944,7 @@ namespace ROPTLIB{
 		copy_(&length, const_cast<realdp *> (Uptr + n * p), &GLOBAL::IONE, V, &GLOBAL::IONE);
 		copy_(&length, const_cast<realdp *> (Uptr), &GLOBAL::IONE, V + n * p, &GLOBAL::IONE);
 		scal_(&length, &GLOBAL::DNONE, V + n * p, &GLOBAL::IONE);
-		const realdp *xiyptr = xiy.ObtainReadData();
+		const realdp *xiyptr = exxiy.ObtainReadData();
 		integer N = n, P = p, P2 = p * 2;
 		gemm_(GLOBAL::T, GLOBAL::N, &P2, &P, &N, &GLOBAL::DONE, const_cast<realdp *> (Uptr), &N, const_cast<realdp *> (xiyptr), &N, &GLOBAL::DZERO, Utxiy, &P2);
 
@@ -957,7 +957,7 @@ namespace ROPTLIB{
 			printf("Warning: getrs in Stiefel::DiffCayleyRetraction failed!\n");
 		delete[] Perm;
 
-        Vector exresult(xiy);
+        Vector exresult(exxiy);
 		realdp *exresultptr = exresult.ObtainWritePartialData();
 		gemm_(GLOBAL::N, GLOBAL::N, &N, &P, &P2, &GLOBAL::DONE, V, &N, Utxiy, &P2, &GLOBAL::DONE, exresultptr, &N);
 		delete[] V;
-- 
2.43.0


From 423da719e566dc751ee1705bc6e8be37eed42c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 31/92] fix: FixedRankE initialises HasHHR

---
 Manifolds/FixedRankE.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index e368934..e2660ea 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -10,6 +10,7 @@ namespace ROPTLIB{
 		n = inn;
 		r = inr;
 		name.assign("FixedRankEmbedded");
+        HasHHR = false;
         IsIntrApproach = false;
         ExtrinsicDim = n * m;
         IntrinsicDim = (m - r) * r + r * r + (n - r) * r;
-- 
2.43.0


From 8dcacfbbb41dfe39df154371ccec8abde3d176d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 32/92] fix: FixedRankE::ObtainNorVerIntr computes the
 Householder factors when they are missing

---
 Manifolds/FixedRankE.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index e2660ea..389c2a4 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -117,6 +117,16 @@ namespace ROPTLIB{
     Vector &FixedRankE::ObtainNorVerIntr(const Variable &x, const Vector &etax, Vector *result) const
     {
         Vector U = x.Field("U"), D = x.Field("D"), V = x.Field("V");
+        if(!(U.FieldsExist("_HHR")))
+        {
+            U.HHRDecom();
+            x.AddToFields("U", U);
+        }
+        if(!(V.FieldsExist("_HHR")))
+        {
+            V.HHRDecom();
+            x.AddToFields("V", V);
+        }
         Vector QUTetax = etax.HHRMtp(U.Field("_HHR"), U.Field("_tau"), GLOBAL::T, GLOBAL::L);
         Vector QUTetaxQV = QUTetax.HHRMtp(V.Field("_HHR"), V.Field("_tau"), GLOBAL::N, GLOBAL::R);
         const realdp *QUTetaxQVptr = QUTetaxQV.ObtainReadData();
-- 
2.43.0


From c743f4f7bba49e6a6f543e408c6db43c52876ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 33/92] fix: FixedRankE::EucGradToGrad stores its own copy of
 the Euclidean gradient

---
 Manifolds/FixedRankE.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 389c2a4..3d39fad 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -287,11 +287,14 @@ namespace ROPTLIB{
 
 	Vector &FixedRankE::EucGradToGrad(const Variable &x, const Vector &egf, const Problem *prob, Vector *result)  const
 	{
-        Projection(x, egf, result);
         if(prob->GetUseHess())
         {
-            x.AddToFields("EGrad", egf);
+            /*The copy on write is necessary. The reason is that the egf may be from a component in a product of elements.*/
+            Vector Sharedegf(egf);
+            Sharedegf.CopyOnWrite();
+            x.AddToFields("EGrad", Sharedegf);
         }
+        Projection(x, egf, result); /*egf and result may be the same*/
         return *result;
 	};
 
-- 
2.43.0


From fe35817909c544afd9a330093040b88a60891628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 34/92] fix: Grassmann::DiffRetraction returns a horizontal
 vector in the extrinsic representation

---
 Manifolds/Grassmann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/Grassmann.cpp b/Manifolds/Grassmann.cpp
index b10c0c9..1ddc36e 100644
--- a/Manifolds/Grassmann.cpp
+++ b/Manifolds/Grassmann.cpp
@@ -112,7 +112,7 @@ namespace ROPTLIB{
         if(IsIntrApproach)
             ObtainIntr(y, exresult, result);
         else
-            *result = exresult;
+            ExtrProjection(y, exresult, result); /*remove the vertical component*/
         
         if (IsEtaXiSameDir && HasHHR)
         {
-- 
2.43.0


From acb9b0801c8135c4b1b2ca70abf9ebea75a20341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 35/92] fix: LinearOPEEta accepts tensors as vectors

---
 Manifolds/Manifold.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index f18ecd8..452ad14 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -25,13 +25,15 @@ namespace ROPTLIB{
         /*even if etax is a complex element, the real reparameterizations are used. In other words, we viewed it is
         2 n dimension real data. We have to convert it to real element to apply the linear opeartor. */
         bool etaxiscomplex = etax.Getiscomplex();
+        integer etaxrow = etax.Getrow(), etaxcol = etax.Getcol(), etaxnum = etax.Getnum();
         etax.Setiscomplex(false);
         Vector etaxreshape = etax; etaxreshape.Reshape(etax.Getlength());
         result->Setiscomplex(false);
+        result->Reshape(etax.Getlength());
         result->AlphaABaddBetaThis(1, Hx, GLOBAL::N, etaxreshape, GLOBAL::N, 0);
         etax.Setiscomplex(etaxiscomplex);
         result->Setiscomplex(etaxiscomplex);
-        result->Reshape(etax.Getrow(), etax.Getcol(), etax.Getnum());
+        result->Reshape(etaxrow, etaxcol, etaxnum);
         return *result;
 	};
 
-- 
2.43.0


From 2e2c082a0699463c6bb508d096f107f79a554c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 36/92] fix: InvPolarRetraction does not change the shape of an
 intrinsic result

---
 Manifolds/CStiefel.cpp | 9 ++++-----
 Manifolds/Stiefel.cpp  | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index 2a89a5f..e41592a 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -530,13 +530,12 @@ namespace ROPTLIB{
 
         Vector tIp(p, p, "complex"); tIp.SetToIdentity(); tIp = 2 * tIp;
         Vector soln = tIp.SYL(A, A.GetTranspose());
-        *result = x; result->AlphaABaddBetaThis(1, y, GLOBAL::N, soln, GLOBAL::N, -1); /* y * tIp.SYL(A, A.GetTranspose()) - x; */
+        Vector exresult(x); exresult.AlphaABaddBetaThis(1, y, GLOBAL::N, soln, GLOBAL::N, -1); /* y * tIp.SYL(A, A.GetTranspose()) - x; */
 
         if(IsIntrApproach)
-        {
-            Vector exresult(*result);
-            ObtainIntr(x, exresult, result);
-        }
+            return ObtainIntr(x, exresult, result);
+
+        *result = exresult;
         return *result;
     };
 
diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index 91dc1cd..c870c67 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -584,13 +584,12 @@ namespace ROPTLIB{
         
         Vector tIp(p, p); tIp.SetToIdentity(); tIp = 2 * tIp;
         Vector soln = tIp.SYL(A, A.GetTranspose());
-        *result = x; result->AlphaABaddBetaThis(1, y, GLOBAL::N, soln, GLOBAL::N, -1); /* y * tIp.SYL(A, A.GetTranspose()) - x; */
+        Vector exresult(x); exresult.AlphaABaddBetaThis(1, y, GLOBAL::N, soln, GLOBAL::N, -1); /* y * tIp.SYL(A, A.GetTranspose()) - x; */
 
         if(IsIntrApproach)
-        {
-            Vector exresult(*result);
-            ObtainIntr(x, exresult, result);
-        }
+            return ObtainIntr(x, exresult, result);
+
+        *result = exresult;
         return *result;
     };
 
-- 
2.43.0


From 94c3edceefbe4b52d7d95a2d917a391b6bbce135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 37/92] fix: SPDManifold::VectorTransport uses the locking
 transport that its inverse and operator transports use

---
 Manifolds/SPDManifold.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index a9b8d9a..5a2b3ab 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -474,6 +474,9 @@ namespace ROPTLIB{
 
     Vector &SPDManifold::VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
     {
+        if (HasHHR)
+            return LCVectorTransport(x, etax, y, xix, result);
+
         if (VecTran == SPDPARATRAN)
             return ParallelTranslation(x, etax, y, xix, result);
         
-- 
2.43.0


From 07ac683539626907cf7aa78eb5e16e04407ee76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 38/92] fix: FixedRankE::DiffRetraction is defined for steps
 with a zero factor

---
 Manifolds/FixedRankE.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 3d39fad..0c6e4d8 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -217,14 +217,16 @@ namespace ROPTLIB{
             Vector Dx = x.Field("D"), Dy = y.Field("D");
             Vector Vx = x.Field("V"), dVeta = etax.Field("dV"), Vy = y.Field("V"), dVxix = xix.Field("dV");
             
-            realdp alpha1 = sqrt(dUxix.DotProduct(dUxix) / dUeta.DotProduct(dUeta));
+            realdp ndUetasq = dUeta.DotProduct(dUeta);
+            realdp alpha1 = (ndUetasq > 0) ? sqrt(dUxix.DotProduct(dUxix) / ndUetasq) : 0;
             Vector Uy_Vt = Uy.Field("_Vt"), Uy_S = Uy.Field("_S");
             Vector tmp1 = dUeta * Uy_Vt.GetTranspose();
             Uy_S = 1 / Uy_S;
             tmp1 = Uy_S.GetDiagTimesM(tmp1, GLOBAL::R) * Uy_Vt;
             Vector result1 = (tmp1 - Uy * (tmp1.GetTranspose() * tmp1)) * alpha1;
             
-            realdp alpha2 = sqrt(dVxix.DotProduct(dVxix) / dVeta.DotProduct(dVeta));
+            realdp ndVetasq = dVeta.DotProduct(dVeta);
+            realdp alpha2 = (ndVetasq > 0) ? sqrt(dVxix.DotProduct(dVxix) / ndVetasq) : 0;
             Vector Vy_Vt = Vy.Field("_Vt"), Vy_S = Vy.Field("_S");
             Vector tmp2 = dVeta * Vy_Vt.GetTranspose();
             Vy_S = 1 / Vy_S;
-- 
2.43.0


From afb5e5adeb3ea0d1ac883064b6b747b097c91d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 39/92] fix: locking vector transport is defined when the
 second reflection is trivial

---
 Manifolds/Manifold.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 452ad14..6abd73a 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -733,7 +733,9 @@ namespace ROPTLIB{
         ScalarTimesVector(y, 2.0, eps1, &nu1);
         VectorLinearCombination(y, -1.0, eps1, -1.0, TRetaVector, &nu2);
         tau1tau2ptr[0] = static_cast<realdp> (2) / Metric(y, nu1, nu1);
-        tau1tau2ptr[1] = static_cast<realdp> (2) / Metric(y, nu2, nu2);
+        /*If -eps1 is equal to TRetaVector up to round-off, then the second reflection is not needed.*/
+        realdp nnu2sq = Metric(y, nu2, nu2);
+        tau1tau2ptr[1] = (nnu2sq > std::numeric_limits<realdp>::epsilon() * Metric(y, eps1, eps1)) ? static_cast<realdp> (2) / nnu2sq : 0;
         
         etax.AddToFields("tau1tau2", tau1tau2);
         etax.AddToFields("nu1", nu1);
-- 
2.43.0


From 531523a88b23724ef77130ccfdace3de3feec7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 40/92] fix: a product in extrinsic representation projects
 extrinsic vectors

---
 Manifolds/MultiManifolds.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 1fa3cdb..38ba641 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -169,7 +169,10 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
-                manifolds[i]->Projection(x.GetElement(j), inetax.GetElement(j), &(result->GetElement(j)));
+                if(!IsIntrApproach) /*all components use extrinsic representations*/
+                    manifolds[i]->ExtrProjection(x.GetElement(j), inetax.GetElement(j), &(result->GetElement(j)));
+                else
+                    manifolds[i]->Projection(x.GetElement(j), inetax.GetElement(j), &(result->GetElement(j)));
             }
         }
         
-- 
2.43.0


From 9369fde5eb9ee7f11b0456b1275d3a3437107f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 41/92] fix: truncated CG starts from a tangent residual

---
 Solvers/SolversSMTR.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index 47f9f72..65620c3 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -158,6 +158,7 @@ namespace ROPTLIB{
             r = gf1;
 			e_Pe = 0;
 		}
+        Mani->Projection(x1, r, &r);
 
 		r_r = Mani->Metric(x1, r, r);
 		norm_r = sqrt(r_r);
-- 
2.43.0


From 73a2de688d988fa0af1ea39ace6d36fdafb72db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 42/92] fix: smooth solvers stop at a point whose gradient is
 exactly zero

---
 Solvers/SolversSM.cpp   | 2 +-
 Solvers/SolversSMTR.cpp | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Solvers/SolversSM.cpp b/Solvers/SolversSM.cpp
index c935bd3..c92ca25 100644
--- a/Solvers/SolversSM.cpp
+++ b/Solvers/SolversSM.cpp
@@ -66,7 +66,7 @@ namespace ROPTLIB{
 			return ngf2 < Tolerance;
         
 		if (Stop_Criterion == SM_GRAD_F_0)
-			return (ngf2 / ngf0) < Tolerance;
+			return ngf2 == 0 || (ngf2 / ngf0) < Tolerance;
         
 		printf("Error: Stopping Criterion is not specefic!\n");
 		return true;
diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index 65620c3..0b3875b 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -178,6 +178,12 @@ namespace ROPTLIB{
 		tCGstatusSM = TRSM_MAXITER; /* pre-assume termination j == max_inner*/
 
         eta2 = eta1;
+        if (norm_r == 0) /*the initial guess is already a stationary point of the local model*/
+        {
+            tCGstatusSM = TRSM_MIN;
+            innerIter = 0;
+            return;
+        }
 
 		realdp new_modelv = 0, modelv = 0;
 		if (useRand)
@@ -221,7 +227,7 @@ namespace ROPTLIB{
 
 			tempnum = pow(norm_r0, theta);
 
-			if (j >= Min_Inner_Iter && norm_r <= norm_r0 * ((tempnum < kappa) ? tempnum : kappa))
+			if ((j >= Min_Inner_Iter || norm_r == 0) && norm_r <= norm_r0 * ((tempnum < kappa) ? tempnum : kappa))
 			{
 				if (kappa < tempnum)
 					tCGstatusSM = TRSM_LCON; /* linear convergence*/
-- 
2.43.0


From 99b9a7843cf9171e2af1b114ef899066bb56c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 43/92] fix: initialise the settings of a Problem

---
 Problems/Problem.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Problems/Problem.h b/Problems/Problem.h
index e721254..d1a2fdd 100644
--- a/Problems/Problem.h
+++ b/Problems/Problem.h
@@ -107,10 +107,10 @@ namespace ROPTLIB{
         inline bool GetNumGradHess(void) const { return NumGradHess; };
         
 	protected:
-		Manifold *Domain; /*Domain of the cost function. It is required to be assigned.*/
-		mutable bool UseGrad; /*Mark whether the gradient is used*/
-		mutable bool UseHess; /*Mark whether the action of the Hessian is used.*/
-        mutable bool NumGradHess;
+		Manifold *Domain = nullptr; /*Domain of the cost function. It is required to be assigned.*/
+		mutable bool UseGrad = true; /*Mark whether the gradient is used*/
+		mutable bool UseHess = true; /*Mark whether the action of the Hessian is used.*/
+        mutable bool NumGradHess = false;
 	};
 
 }; /*end of ROPTLIB namespace*/
-- 
2.43.0


From 8e22e8beb4d468802b61a7637da0a6340fb9f3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 44/92] fix: keep SPDManifold.cpp's original line endings

---
 Manifolds/SPDManifold.cpp | 1160 ++++++++++++++++++-------------------
 1 file changed, 580 insertions(+), 580 deletions(-)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index 5a2b3ab..32222b6 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -1,580 +1,580 @@
-
-#include "Manifolds/SPDManifold.h"
-
-/*Define the namespace*/
-namespace ROPTLIB{
-
-	SPDManifold::SPDManifold(integer inn)
-	{
-		n = inn;
-		IsIntrApproach = true;
-		HasHHR = false;
-		name.assign("SPDManifold");
-		IntrinsicDim = n * (n + 1) / 2;
-		ExtrinsicDim = n * n;
-		metric = SPDAFFINEINVARIANCE;
-        retr = SPDSECONDORDER;
-        VecTran = SPDVTPARA;
-        EMPTYEXTR = Vector(n, n);
-        EMPTYINTR = Vector(IntrinsicDim);
-	};
-
-	SPDManifold::~SPDManifold(void)
-	{
-	};
-
-	void SPDManifold::ChooseParamsSet1(void)
-	{
-        IsIntrApproach = true;
-		metric = SPDAFFINEINVARIANCE;
-        retr = SPDSECONDORDER;
-        VecTran = SPDVTPARA;
-	};
-
-	void SPDManifold::ChooseParamsSet2(void)
-	{
-        IsIntrApproach = true;
-		metric = SPDEUCLIDEAN;
-        retr = SPDSECONDORDER;
-        VecTran = SPDVTPARA;
-	}
-
-    void SPDManifold::ChooseParamsSet3(void)
-    {
-        IsIntrApproach = false;
-        metric = SPDAFFINEINVARIANCE;
-        retr = SPDEXP;
-        VecTran = SPDPARATRAN;
-    };
-
-    void SPDManifold::ChooseParamsSet4(void)
-    {
-        IsIntrApproach = false;
-        metric = SPDEUCLIDEAN;
-        retr = SPDEXP;
-        VecTran = SPDPARATRAN;
-    }
-
-    realdp SPDManifold::Metric(const Variable &x, const Vector &etax, const Vector &xix) const
-    {
-        if(IsIntrApproach || metric == SPDEUCLIDEAN)
-            return etax.DotProduct(xix);
-        
-        if (metric == SPDAFFINEINVARIANCE)
-        {
-            Vector tmp = ((x % etax) / x);
-            return tmp.DotProduct(xix);
-        }
-        
-        printf("Warning: SPDManifold::metric has not been done!\n");
-        return etax.DotProduct(xix);
-    };
-
-    Variable SPDManifold::RandominManifold(void) const
-    {
-        Vector tmp(n, n); tmp.RandGaussian();
-        return tmp * tmp.GetTranspose();
-    };
-
-	void SPDManifold::CheckParams(void) const
-	{
-        std::string SPDMetricnames[SPDMETRICLENGTH] = { "EUCLIDEAN", "AFFINV" };
-        std::string SPDRetractionnames[SPDRETRACTIONLENGTH] = { "SPDEXP", "SPDSECONDORDER" };
-        std::string SPDVecTrannames[SPDVECTORTRANSPORTLENGTH] = { "SPDPARATRAN", "SPDVTPARA" };
-		Manifold::CheckParams();
-		printf("%s PARAMETERS:\n", name.c_str());
-		printf("row           :%15d,\t", n);
-		printf("col           :%15d\n", n);
-        printf("metric        :%15s,\t", SPDMetricnames[metric].c_str());
-        printf("Retraction    :%15s,\n", SPDRetractionnames[retr].c_str());
-        printf("VecTran       :%15s,\n", SPDVecTrannames[VecTran].c_str());
-	};
-
-	Vector &SPDManifold::ExtrProjection(const Variable &x, const Vector &etax, Vector *result) const
-	{
-        Vector inetax = etax;
-		const realdp *etaxptr = inetax.ObtainReadData();
-		realdp *resultptr = result->ObtainWriteEntireData();
-		for (integer i = 0; i < n; i++)
-		{
-			resultptr[i + i * n] = etaxptr[i + i * n];
-			for (integer j = i + 1; j < n; j++)
-			{
-				resultptr[i + j * n] = (etaxptr[i + j * n] + etaxptr[j + i * n]) * static_cast<realdp> (0.5);
-				resultptr[j + i * n] = resultptr[i + j * n];
-			}
-		}
-        return *result;
-	};
-
-	Vector &SPDManifold::EucGradToGrad(const Variable &x, const Vector &egf, const Problem *prob, Vector *result) const
-	{
-		if (metric == SPDAFFINEINVARIANCE)
-			return EucGradToGradAF(x, egf, prob, result);
-        
-		if (metric == SPDEUCLIDEAN)
-			return EucGradToGradEuc(x, egf, prob, result);
-
-        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
-        return EucGradToGradAF(x, egf, prob, result);
-	};
-
-	Vector &SPDManifold::EucHvToHv(const Variable &x, const Vector &etax, const Vector &exix, const Problem *prob, Vector *result) const
-	{
-		if (metric == SPDAFFINEINVARIANCE)
-			return EucHvToHvAF(x, etax, exix, prob, result);
-        
-        if (metric == SPDEUCLIDEAN)
-            return EucHvToHvEuc(x, etax, exix, prob, result);
-        
-        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
-        return EucHvToHvAF(x, etax, exix, prob, result);
-	};
-
-	Vector &SPDManifold::ObtainIntr(const Variable &x, const Vector &etax, Vector *result) const
-	{
-		if (metric == SPDAFFINEINVARIANCE)
-			return ObtainIntrAF(x, etax, result);
-        
-        if (metric == SPDEUCLIDEAN)
-            return ObtainIntrEuc(x, etax, result);
-
-        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
-        return ObtainIntrAF(x, etax, result);
-	};
-
-	Vector &SPDManifold::ObtainExtr(const Variable &x, const Vector &intretax, Vector *result) const
-	{
-		if (metric == SPDAFFINEINVARIANCE)
-			return ObtainExtrAF(x, intretax, result);
-        
-        if (metric == SPDEUCLIDEAN)
-            return ObtainExtrEuc(x, intretax, result);
-        
-        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
-        return ObtainExtrAF(x, intretax, result);
-	};
-
-	realdp SPDManifold::Dist(const Variable &x1, const Variable &x2) const
-	{
-		if (metric == SPDAFFINEINVARIANCE)
-			return DistAF(x1, x2);
-        
-        if (metric == SPDEUCLIDEAN)
-            return DistEuc(x1, x2);
-        
-        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
-        return DistAF(x1, x2);
-	};
-
-    Variable &SPDManifold::Retraction(const Variable &x, const Vector &etax, Variable *result) const
-    {
-        if (retr == SPDEXP)
-            return ExpRetraction(x, etax, result);
-        
-        if (retr == SPDSECONDORDER)
-            return SecOrdRetraction(x, etax, result);
-        
-        printf("Warning: the Riemannian retraction is not valid! Use the second order retraction instead!");
-        return SecOrdRetraction(x, etax, result);
-    };
-
-    Vector &SPDManifold::DiffRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
-    {
-        if (retr == SPDEXP)
-            return DiffExpRetraction(x, etax, y, xix, result, IsEtaXiSameDir);
-        
-        if (retr == SPDSECONDORDER)
-            return DiffSecOrdRetraction(x, etax, y, xix, result, IsEtaXiSameDir);
-        
-        printf("Warning: the Riemannian retraction is not valid! Use the second order retraction instead!");
-        return DiffSecOrdRetraction(x, etax, y, xix, result, IsEtaXiSameDir);
-    };
-
-    Variable &SPDManifold::ExpRetraction(const Variable &x, const Vector &etax, Variable *result) const
-    {
-        if (!x.FieldsExist("_L"))
-        {
-            x.CholDecom();
-        }
-        Vector exetax(EMPTYEXTR);
-        if(IsIntrApproach)
-            ObtainExtr(x, etax, &exetax);
-        else
-            exetax = etax;
-        
-        Vector LiE = exetax.TriangleLinSol(x.Field("_L"));
-        Vector LiELiT = LiE.GetTranspose().TriangleLinSol(x.Field("_L"));
-        Vector tmp(n, n);
-        tmp.AlphaABaddBetaThis(1, x.Field("_L"), GLOBAL::N, LiELiT.ExpSym(), GLOBAL::N, 0);
-        result->AlphaABaddBetaThis(1, tmp, GLOBAL::N, x.Field("_L"), GLOBAL::T, 0);
-        realdp *resultptr = result->ObtainWritePartialData();
-        
-        realdp tmpv = 0;
-        for(integer i = 0; i < n; i++)
-        {
-            for(integer j = i + 1; j < n; j++)
-            {
-                tmpv = (resultptr[i + j * n] + resultptr[j + i * n]) / 2;
-                resultptr[i + j * n] = tmpv;
-                resultptr[j + i * n] = tmpv;
-            }
-        }
-        
-        if (!result->FieldsExist("_L"))
-        {
-            result->CholDecom();
-        }
-        return *result;
-    };
-
-    Vector &SPDManifold::DiffExpRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
-    {
-        printf("Warning: SPDManifold::DiffExpRetraction has not been implemented yet!\n");
-        return Manifold::DiffRetraction(x, etax, y, xix, result, IsEtaXiSameDir);
-    };
-
-	Variable &SPDManifold::SecOrdRetraction(const Variable &x, const Vector &etax, Variable *result) const
-	{ /* result = x + etx + 0.5 * etax * x^{-1} * etax */
-        if (!x.FieldsExist("_L"))
-        {
-            x.CholDecom();
-        }
-        Vector exetax(EMPTYEXTR);
-        if(IsIntrApproach)
-            ObtainExtr(x, etax, &exetax);
-        else
-            exetax = etax;
-        
-        Vector LiE = exetax.TriangleLinSol(x.Field("_L"));
-        
-        result->AlphaABaddBetaThis(0.5, LiE, GLOBAL::T, LiE, GLOBAL::N, 0);
-        
-        result->AlphaXaddThis(1, exetax);
-        result->AlphaXaddThis(1, x);
-        
-        if (!result->FieldsExist("_L"))
-        {
-            result->CholDecom();
-        }
-        return *result;
-	};
-
-	Vector &SPDManifold::DiffSecOrdRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
-	{ /* xix + 0.5 xix x^{-1} etax + 0.5 etax x^{-1} xix */
-        realdp nxix = std::sqrt(Metric(x, xix, xix));
-
-        if (!x.FieldsExist("_L"))
-        {
-            x.CholDecom();
-        }
-        Vector exetax(EMPTYEXTR), exxix(EMPTYEXTR);
-        if(IsIntrApproach)
-        {
-            ObtainExtr(x, etax, &exetax);
-            ObtainExtr(x, xix, &exxix);
-        }
-        else
-        {
-            exetax = etax;
-            exxix = xix;
-        }
-        Vector LiE = exetax.TriangleLinSol(x.Field("_L"));
-        Vector LiX = exxix.TriangleLinSol(x.Field("_L"));
-        Vector exresult(EMPTYEXTR);
-        exresult.AlphaABaddBetaThis(1, LiE, GLOBAL::T, LiX, GLOBAL::N, 0);
-        realdp *exresultptr = exresult.ObtainWritePartialData();
-        for (integer i = 0; i < n; i++)
-        {
-            for (integer j = i + 1; j < n; j++)
-            {
-                exresultptr[j + i * n] = (exresultptr[j + i * n] + exresultptr[i + j * n]) * static_cast<realdp> (0.5);
-                exresultptr[i + j * n] = exresultptr[j + i * n];
-            }
-        }
-        exresult.AlphaXaddThis(1, exxix);
-        
-        if(IsIntrApproach)
-            ObtainIntr(y, exresult, result);
-        else
-            *result = exresult;
-
-        if (IsEtaXiSameDir && HasHHR)
-        {
-            Vector beta(3);
-            realdp *betaptr = beta.ObtainWriteEntireData();
-            realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
-            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
-            betaptr[1] = Metric(x, etax, etax);
-            betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
-            etax.AddToFields("beta", beta);
-            
-            if (HasHHR)
-            {
-                etax.AddToFields("betaTReta", (*result) * (betaptr[0] * EtatoXi));
-            }
-        }
-        return *result;
-	};
-
-	Vector &SPDManifold::coTangentVector(const Variable &x, const Vector &etax, const Variable &y, const Vector &xiy, Vector *result) const
-	{
-		printf("SPDManifold::coTangentVector has not been done!\n");
-        return Manifold::coTangentVector(x, etax, y, xiy, result);
-	};
-
-	realdp SPDManifold::Beta(const Variable &x, const Vector &etax) const
-	{
-        if (!HasHHR)
-            return 1;
-        
-        assert(etax.FieldsExist("beta"));
-
-        /*If the beta has been computed in differentiated retraction, then obtain it.
-        Beta should be almost always computed before.*/
-        Vector beta = etax.Field("beta");
-        const realdp *betav = beta.ObtainReadData();
-        return betav[0];
-	};
-
-	Vector &SPDManifold::EucGradToGradAF(const Variable &x, const Vector &egf, const Problem *prob, Vector *result) const
-	{
-        if (prob->GetUseHess())
-        {
-            /*The copy on write is necessary. The reason is that the egf may be from a component in a product of elements.
-            Therefore, if CopyOnWrite is not used, then the attached data in x and the product of elements share the same
-            memory. This may cause an issue: if the product of elements are released before the attached data in x, then
-            release the attached data in x would attempt to delete memory that has been released. This is an error!*/
-            Vector EGrad(egf);
-            EGrad.CopyOnWrite();
-            x.AddToFields("EGrad", EGrad);
-        }
-        Vector tmp(n, n);
-        tmp.AlphaABaddBetaThis(1, x, GLOBAL::T, egf, GLOBAL::N, 0);
-        result->AlphaABaddBetaThis(1, tmp, GLOBAL::N, x, GLOBAL::N, 0);
-        return *result;
-	};
-
-	Vector &SPDManifold::EucHvToHvAF(const Variable &x, const Vector &etax, const Vector &exix, const Problem *prob, Vector *result) const
-	{
-        Vector tmp = x * x.Field("EGrad") * etax;
-        *result = x * exix * x + (tmp + tmp.GetTranspose()) / 2;
-        return *result;
-	};
-
-	Vector &SPDManifold::ObtainIntrAF(const Variable &x, const Vector &etax, Vector *result) const
-	{/* L^{-1} etax L^{-T}, where x = L L^T, etax is assumed to be a symmetric matrix. */
-        
-        if (!x.FieldsExist("_L"))
-        {
-            x.CholDecom();
-        }
-        
-        Vector LiE = etax.TriangleLinSol(x.Field("_L"));
-        Vector LiELiT = LiE.GetTranspose().TriangleLinSol(x.Field("_L"));
-        const realdp *LiELiTptr = LiELiT.ObtainReadData();
-        
-		realdp *resultptr = result->ObtainWriteEntireData();
-		integer idx = 0;
-		realdp r2 = static_cast<realdp> (sqrt(2.0));
-		for (integer i = 0; i < n; i++)
-		{
-			resultptr[idx] = LiELiTptr[i + i * n];
-			idx++;
-		}
-
-		for (integer i = 0; i < n; i++)
-		{
-			for (integer j = i + 1; j < n; j++)
-			{
-				resultptr[idx] = LiELiTptr[j + i * n] * r2;
-				idx++;
-			}
-		}
-        return *result;
-	};
-
-	Vector &SPDManifold::ObtainExtrAF(const Variable &x, const Vector &intretax, Vector *result) const
-	{
-        if (!x.FieldsExist("_L"))
-        {
-            x.CholDecom();
-        }
-        
-		const realdp *intretaxptr = intretax.ObtainReadData();
-		realdp *resultptr = result->ObtainWriteEntireData();
-
-		integer idx = 0;
-		realdp r2 = static_cast<realdp> (sqrt(2.0));
-		for (integer i = 0; i < n; i++)
-		{
-			resultptr[i + i * n] = intretaxptr[idx];
-			idx++;
-		}
-
-		for (integer i = 0; i < n; i++)
-		{
-			for (integer j = i + 1; j < n; j++)
-			{
-				resultptr[j + i * n] = intretaxptr[idx] / r2;
-				resultptr[i + j * n] = resultptr[j + i * n];
-				idx++;
-			}
-		}
-        
-        Vector tmp(n, n); tmp.AlphaABaddBetaThis(1, x.Field("_L"), GLOBAL::N, *result, GLOBAL::N, 0);
-        result->AlphaABaddBetaThis(1, tmp, GLOBAL::N, x.Field("_L"), GLOBAL::T, 0);
-        
-        return *result;
-	};
-
-	realdp SPDManifold::DistAF(const Variable &x1, const Variable &x2) const
-	{ /* dis(x, y) = |log(Lx^{-1} y Lx^{-T})|_F */
-		
-        if (!x1.FieldsExist("_L"))
-        {
-            x1.CholDecom();
-        }
-        
-        if (!x2.FieldsExist("_L"))
-        {
-            x2.CholDecom();
-        }
-        Vector tmp = x2.Field("_L").TriangleLinSol(x1.Field("_L"));
-        Vector tmp2(EMPTYEXTR); tmp2.AlphaABaddBetaThis(1, tmp, GLOBAL::N, tmp, GLOBAL::T, 0);
-        tmp2.EigenDecomSym();
-        Vector EigVals = tmp2.Field("_EigVal");
-        realdp *EigValsptr = EigVals.ObtainWritePartialData();
-        for (integer i = 0; i < n; i++)
-            EigValsptr[i] = std::log(EigValsptr[i]);
-        return EigVals.Fnorm();
-	};
-
-	Vector &SPDManifold::EucGradToGradEuc(const Variable &x, const Vector &egf, const Problem *prob, Vector *result) const
-	{
-        if (prob->GetUseHess())
-        {
-            /*The copy on write is necessary. The reason is that the egf may be from a component in a product of elements.
-            Therefore, if CopyOnWrite is not used, then the attached data in x and the product of elements share the same
-            memory. This may cause an issue: if the product of elements are released before the attached data in x, then
-            release the attached data in x would attempt to delete memory that has been released. This is an error!*/
-            Vector EGrad(egf);
-            EGrad.CopyOnWrite();
-            x.AddToFields("EGrad", EGrad);
-        }
-        *result = egf;
-        return *result;
-	};
-
-	Vector &SPDManifold::EucHvToHvEuc(const Variable &x, const Vector &etax, const Vector &exix, const Problem *prob, Vector *result) const
-	{
-        *result = exix;
-        return *result;
-	};
-
-    Vector &SPDManifold::VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
-    {
-        if (HasHHR)
-            return LCVectorTransport(x, etax, y, xix, result);
-
-        if (VecTran == SPDPARATRAN)
-            return ParallelTranslation(x, etax, y, xix, result);
-        
-        if (VecTran == SPDVTPARA)
-            return VectorTransportParallelization(x, etax, y, xix, result);
-
-        printf("Warning: the VectorTransport is not valid! Use vector transport by parallelization instead!");
-        return VectorTransportParallelization(x, etax, y, xix, result);
-    };
-
-    Vector &SPDManifold::ParallelTranslation(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
-    {
-        if (!x.FieldsExist("_L"))
-        {
-            x.CholDecom();
-        }
-        Vector exetax(EMPTYEXTR), exxix(EMPTYEXTR);
-        if(IsIntrApproach)
-        {
-            ObtainExtr(x, etax, &exetax);
-            ObtainExtr(x, xix, &exxix);
-        }
-        else
-        {
-            exetax = etax;
-            exxix = xix;
-        }
-        
-        Vector LiE = exetax.TriangleLinSol(x.Field("_L"));
-        Vector LiELiThalf = LiE.GetTranspose().TriangleLinSol(x.Field("_L"));
-        LiELiThalf.ScalarTimesThis(0.5);
-        Vector tmp = x.Field("_L") * LiELiThalf.ExpSym().TriangleLinSol(x.Field("_L"), GLOBAL::T).GetTranspose();
-        LiE.AlphaABaddBetaThis(1, tmp, GLOBAL::N, exxix, GLOBAL::N, 0); /*LiE is for temporary storage*/
-        result->AlphaABaddBetaThis(1, LiE, GLOBAL::N, tmp, GLOBAL::T, 0); /* *result = tmp * exxix * tmp.GetTranspose(); */
-        return *result;
-    };
-        
-    Vector &SPDManifold::VectorTransportParallelization(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
-    {
-        if(IsIntrApproach)
-        {
-            *result = xix;
-            return *result;
-        }
-        Vector tmp(EMPTYEXTR); ObtainIntr(x, xix, &tmp);
-        return ObtainExtr(y, tmp, result);
-    };
-
-	Vector &SPDManifold::ObtainIntrEuc(const Variable &x, const Vector &etax, Vector *result) const
-	{
-		const realdp *etaxTV = etax.ObtainReadData();
-		realdp *resultTV = result->ObtainWriteEntireData();
-		integer idx = 0;
-		realdp r2 = static_cast<realdp> (sqrt(2.0));
-		for (integer i = 0; i < n; i++)
-		{
-			resultTV[idx] = etaxTV[i + i * n];
-			idx++;
-		}
-
-		for (integer i = 0; i < n; i++)
-		{
-			for (integer j = i + 1; j < n; j++)
-			{
-				resultTV[idx] = etaxTV[j + i * n] * r2;
-				idx++;
-			}
-		}
-        return *result;
-	};
-
-	Vector &SPDManifold::ObtainExtrEuc(const Variable &x, const Vector &intretax, Vector *result) const
-	{
-		const realdp *intretaxTV = intretax.ObtainReadData();
-		realdp *resultTV = result->ObtainWriteEntireData();
-
-		integer idx = 0;
-		realdp r2 = static_cast<realdp> (sqrt(2.0));
-		for (integer i = 0; i < n; i++)
-		{
-			resultTV[i + i * n] = intretaxTV[idx];
-			idx++;
-		}
-
-		for (integer i = 0; i < n; i++)
-		{
-			for (integer j = i + 1; j < n; j++)
-			{
-				resultTV[j + i * n] = intretaxTV[idx] / r2;
-				resultTV[i + j * n] = resultTV[j + i * n];
-				idx++;
-			}
-		}
-        return *result;
-	};
-
-	realdp SPDManifold::DistEuc(const Variable &x1, const Variable &x2) const
-	{
-        return (x1 - x2).Fnorm();
-	};
-}; /*end of ROPTLIB namespace*/
+
+#include "Manifolds/SPDManifold.h"
+
+/*Define the namespace*/
+namespace ROPTLIB{
+
+	SPDManifold::SPDManifold(integer inn)
+	{
+		n = inn;
+		IsIntrApproach = true;
+		HasHHR = false;
+		name.assign("SPDManifold");
+		IntrinsicDim = n * (n + 1) / 2;
+		ExtrinsicDim = n * n;
+		metric = SPDAFFINEINVARIANCE;
+        retr = SPDSECONDORDER;
+        VecTran = SPDVTPARA;
+        EMPTYEXTR = Vector(n, n);
+        EMPTYINTR = Vector(IntrinsicDim);
+	};
+
+	SPDManifold::~SPDManifold(void)
+	{
+	};
+
+	void SPDManifold::ChooseParamsSet1(void)
+	{
+        IsIntrApproach = true;
+		metric = SPDAFFINEINVARIANCE;
+        retr = SPDSECONDORDER;
+        VecTran = SPDVTPARA;
+	};
+
+	void SPDManifold::ChooseParamsSet2(void)
+	{
+        IsIntrApproach = true;
+		metric = SPDEUCLIDEAN;
+        retr = SPDSECONDORDER;
+        VecTran = SPDVTPARA;
+	}
+
+    void SPDManifold::ChooseParamsSet3(void)
+    {
+        IsIntrApproach = false;
+        metric = SPDAFFINEINVARIANCE;
+        retr = SPDEXP;
+        VecTran = SPDPARATRAN;
+    };
+
+    void SPDManifold::ChooseParamsSet4(void)
+    {
+        IsIntrApproach = false;
+        metric = SPDEUCLIDEAN;
+        retr = SPDEXP;
+        VecTran = SPDPARATRAN;
+    }
+
+    realdp SPDManifold::Metric(const Variable &x, const Vector &etax, const Vector &xix) const
+    {
+        if(IsIntrApproach || metric == SPDEUCLIDEAN)
+            return etax.DotProduct(xix);
+        
+        if (metric == SPDAFFINEINVARIANCE)
+        {
+            Vector tmp = ((x % etax) / x);
+            return tmp.DotProduct(xix);
+        }
+        
+        printf("Warning: SPDManifold::metric has not been done!\n");
+        return etax.DotProduct(xix);
+    };
+
+    Variable SPDManifold::RandominManifold(void) const
+    {
+        Vector tmp(n, n); tmp.RandGaussian();
+        return tmp * tmp.GetTranspose();
+    };
+
+	void SPDManifold::CheckParams(void) const
+	{
+        std::string SPDMetricnames[SPDMETRICLENGTH] = { "EUCLIDEAN", "AFFINV" };
+        std::string SPDRetractionnames[SPDRETRACTIONLENGTH] = { "SPDEXP", "SPDSECONDORDER" };
+        std::string SPDVecTrannames[SPDVECTORTRANSPORTLENGTH] = { "SPDPARATRAN", "SPDVTPARA" };
+		Manifold::CheckParams();
+		printf("%s PARAMETERS:\n", name.c_str());
+		printf("row           :%15d,\t", n);
+		printf("col           :%15d\n", n);
+        printf("metric        :%15s,\t", SPDMetricnames[metric].c_str());
+        printf("Retraction    :%15s,\n", SPDRetractionnames[retr].c_str());
+        printf("VecTran       :%15s,\n", SPDVecTrannames[VecTran].c_str());
+	};
+
+	Vector &SPDManifold::ExtrProjection(const Variable &x, const Vector &etax, Vector *result) const
+	{
+        Vector inetax = etax;
+		const realdp *etaxptr = inetax.ObtainReadData();
+		realdp *resultptr = result->ObtainWriteEntireData();
+		for (integer i = 0; i < n; i++)
+		{
+			resultptr[i + i * n] = etaxptr[i + i * n];
+			for (integer j = i + 1; j < n; j++)
+			{
+				resultptr[i + j * n] = (etaxptr[i + j * n] + etaxptr[j + i * n]) * static_cast<realdp> (0.5);
+				resultptr[j + i * n] = resultptr[i + j * n];
+			}
+		}
+        return *result;
+	};
+
+	Vector &SPDManifold::EucGradToGrad(const Variable &x, const Vector &egf, const Problem *prob, Vector *result) const
+	{
+		if (metric == SPDAFFINEINVARIANCE)
+			return EucGradToGradAF(x, egf, prob, result);
+        
+		if (metric == SPDEUCLIDEAN)
+			return EucGradToGradEuc(x, egf, prob, result);
+
+        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
+        return EucGradToGradAF(x, egf, prob, result);
+	};
+
+	Vector &SPDManifold::EucHvToHv(const Variable &x, const Vector &etax, const Vector &exix, const Problem *prob, Vector *result) const
+	{
+		if (metric == SPDAFFINEINVARIANCE)
+			return EucHvToHvAF(x, etax, exix, prob, result);
+        
+        if (metric == SPDEUCLIDEAN)
+            return EucHvToHvEuc(x, etax, exix, prob, result);
+        
+        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
+        return EucHvToHvAF(x, etax, exix, prob, result);
+	};
+
+	Vector &SPDManifold::ObtainIntr(const Variable &x, const Vector &etax, Vector *result) const
+	{
+		if (metric == SPDAFFINEINVARIANCE)
+			return ObtainIntrAF(x, etax, result);
+        
+        if (metric == SPDEUCLIDEAN)
+            return ObtainIntrEuc(x, etax, result);
+
+        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
+        return ObtainIntrAF(x, etax, result);
+	};
+
+	Vector &SPDManifold::ObtainExtr(const Variable &x, const Vector &intretax, Vector *result) const
+	{
+		if (metric == SPDAFFINEINVARIANCE)
+			return ObtainExtrAF(x, intretax, result);
+        
+        if (metric == SPDEUCLIDEAN)
+            return ObtainExtrEuc(x, intretax, result);
+        
+        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
+        return ObtainExtrAF(x, intretax, result);
+	};
+
+	realdp SPDManifold::Dist(const Variable &x1, const Variable &x2) const
+	{
+		if (metric == SPDAFFINEINVARIANCE)
+			return DistAF(x1, x2);
+        
+        if (metric == SPDEUCLIDEAN)
+            return DistEuc(x1, x2);
+        
+        printf("Warning: the Riemannian metric is not valid! Use the affine invariance metric instead!");
+        return DistAF(x1, x2);
+	};
+
+    Variable &SPDManifold::Retraction(const Variable &x, const Vector &etax, Variable *result) const
+    {
+        if (retr == SPDEXP)
+            return ExpRetraction(x, etax, result);
+        
+        if (retr == SPDSECONDORDER)
+            return SecOrdRetraction(x, etax, result);
+        
+        printf("Warning: the Riemannian retraction is not valid! Use the second order retraction instead!");
+        return SecOrdRetraction(x, etax, result);
+    };
+
+    Vector &SPDManifold::DiffRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
+    {
+        if (retr == SPDEXP)
+            return DiffExpRetraction(x, etax, y, xix, result, IsEtaXiSameDir);
+        
+        if (retr == SPDSECONDORDER)
+            return DiffSecOrdRetraction(x, etax, y, xix, result, IsEtaXiSameDir);
+        
+        printf("Warning: the Riemannian retraction is not valid! Use the second order retraction instead!");
+        return DiffSecOrdRetraction(x, etax, y, xix, result, IsEtaXiSameDir);
+    };
+
+    Variable &SPDManifold::ExpRetraction(const Variable &x, const Vector &etax, Variable *result) const
+    {
+        if (!x.FieldsExist("_L"))
+        {
+            x.CholDecom();
+        }
+        Vector exetax(EMPTYEXTR);
+        if(IsIntrApproach)
+            ObtainExtr(x, etax, &exetax);
+        else
+            exetax = etax;
+        
+        Vector LiE = exetax.TriangleLinSol(x.Field("_L"));
+        Vector LiELiT = LiE.GetTranspose().TriangleLinSol(x.Field("_L"));
+        Vector tmp(n, n);
+        tmp.AlphaABaddBetaThis(1, x.Field("_L"), GLOBAL::N, LiELiT.ExpSym(), GLOBAL::N, 0);
+        result->AlphaABaddBetaThis(1, tmp, GLOBAL::N, x.Field("_L"), GLOBAL::T, 0);
+        realdp *resultptr = result->ObtainWritePartialData();
+        
+        realdp tmpv = 0;
+        for(integer i = 0; i < n; i++)
+        {
+            for(integer j = i + 1; j < n; j++)
+            {
+                tmpv = (resultptr[i + j * n] + resultptr[j + i * n]) / 2;
+                resultptr[i + j * n] = tmpv;
+                resultptr[j + i * n] = tmpv;
+            }
+        }
+        
+        if (!result->FieldsExist("_L"))
+        {
+            result->CholDecom();
+        }
+        return *result;
+    };
+
+    Vector &SPDManifold::DiffExpRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
+    {
+        printf("Warning: SPDManifold::DiffExpRetraction has not been implemented yet!\n");
+        return Manifold::DiffRetraction(x, etax, y, xix, result, IsEtaXiSameDir);
+    };
+
+	Variable &SPDManifold::SecOrdRetraction(const Variable &x, const Vector &etax, Variable *result) const
+	{ /* result = x + etx + 0.5 * etax * x^{-1} * etax */
+        if (!x.FieldsExist("_L"))
+        {
+            x.CholDecom();
+        }
+        Vector exetax(EMPTYEXTR);
+        if(IsIntrApproach)
+            ObtainExtr(x, etax, &exetax);
+        else
+            exetax = etax;
+        
+        Vector LiE = exetax.TriangleLinSol(x.Field("_L"));
+        
+        result->AlphaABaddBetaThis(0.5, LiE, GLOBAL::T, LiE, GLOBAL::N, 0);
+        
+        result->AlphaXaddThis(1, exetax);
+        result->AlphaXaddThis(1, x);
+        
+        if (!result->FieldsExist("_L"))
+        {
+            result->CholDecom();
+        }
+        return *result;
+	};
+
+	Vector &SPDManifold::DiffSecOrdRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
+	{ /* xix + 0.5 xix x^{-1} etax + 0.5 etax x^{-1} xix */
+        realdp nxix = std::sqrt(Metric(x, xix, xix));
+
+        if (!x.FieldsExist("_L"))
+        {
+            x.CholDecom();
+        }
+        Vector exetax(EMPTYEXTR), exxix(EMPTYEXTR);
+        if(IsIntrApproach)
+        {
+            ObtainExtr(x, etax, &exetax);
+            ObtainExtr(x, xix, &exxix);
+        }
+        else
+        {
+            exetax = etax;
+            exxix = xix;
+        }
+        Vector LiE = exetax.TriangleLinSol(x.Field("_L"));
+        Vector LiX = exxix.TriangleLinSol(x.Field("_L"));
+        Vector exresult(EMPTYEXTR);
+        exresult.AlphaABaddBetaThis(1, LiE, GLOBAL::T, LiX, GLOBAL::N, 0);
+        realdp *exresultptr = exresult.ObtainWritePartialData();
+        for (integer i = 0; i < n; i++)
+        {
+            for (integer j = i + 1; j < n; j++)
+            {
+                exresultptr[j + i * n] = (exresultptr[j + i * n] + exresultptr[i + j * n]) * static_cast<realdp> (0.5);
+                exresultptr[i + j * n] = exresultptr[j + i * n];
+            }
+        }
+        exresult.AlphaXaddThis(1, exxix);
+        
+        if(IsIntrApproach)
+            ObtainIntr(y, exresult, result);
+        else
+            *result = exresult;
+
+        if (IsEtaXiSameDir && HasHHR)
+        {
+            Vector beta(3);
+            realdp *betaptr = beta.ObtainWriteEntireData();
+            realdp EtatoXi = std::sqrt(Metric(x, etax, etax)) / nxix;
+            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
+            betaptr[1] = Metric(x, etax, etax);
+            betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
+            etax.AddToFields("beta", beta);
+            
+            if (HasHHR)
+            {
+                etax.AddToFields("betaTReta", (*result) * (betaptr[0] * EtatoXi));
+            }
+        }
+        return *result;
+	};
+
+	Vector &SPDManifold::coTangentVector(const Variable &x, const Vector &etax, const Variable &y, const Vector &xiy, Vector *result) const
+	{
+		printf("SPDManifold::coTangentVector has not been done!\n");
+        return Manifold::coTangentVector(x, etax, y, xiy, result);
+	};
+
+	realdp SPDManifold::Beta(const Variable &x, const Vector &etax) const
+	{
+        if (!HasHHR)
+            return 1;
+        
+        assert(etax.FieldsExist("beta"));
+
+        /*If the beta has been computed in differentiated retraction, then obtain it.
+        Beta should be almost always computed before.*/
+        Vector beta = etax.Field("beta");
+        const realdp *betav = beta.ObtainReadData();
+        return betav[0];
+	};
+
+	Vector &SPDManifold::EucGradToGradAF(const Variable &x, const Vector &egf, const Problem *prob, Vector *result) const
+	{
+        if (prob->GetUseHess())
+        {
+            /*The copy on write is necessary. The reason is that the egf may be from a component in a product of elements.
+            Therefore, if CopyOnWrite is not used, then the attached data in x and the product of elements share the same
+            memory. This may cause an issue: if the product of elements are released before the attached data in x, then
+            release the attached data in x would attempt to delete memory that has been released. This is an error!*/
+            Vector EGrad(egf);
+            EGrad.CopyOnWrite();
+            x.AddToFields("EGrad", EGrad);
+        }
+        Vector tmp(n, n);
+        tmp.AlphaABaddBetaThis(1, x, GLOBAL::T, egf, GLOBAL::N, 0);
+        result->AlphaABaddBetaThis(1, tmp, GLOBAL::N, x, GLOBAL::N, 0);
+        return *result;
+	};
+
+	Vector &SPDManifold::EucHvToHvAF(const Variable &x, const Vector &etax, const Vector &exix, const Problem *prob, Vector *result) const
+	{
+        Vector tmp = x * x.Field("EGrad") * etax;
+        *result = x * exix * x + (tmp + tmp.GetTranspose()) / 2;
+        return *result;
+	};
+
+	Vector &SPDManifold::ObtainIntrAF(const Variable &x, const Vector &etax, Vector *result) const
+	{/* L^{-1} etax L^{-T}, where x = L L^T, etax is assumed to be a symmetric matrix. */
+        
+        if (!x.FieldsExist("_L"))
+        {
+            x.CholDecom();
+        }
+        
+        Vector LiE = etax.TriangleLinSol(x.Field("_L"));
+        Vector LiELiT = LiE.GetTranspose().TriangleLinSol(x.Field("_L"));
+        const realdp *LiELiTptr = LiELiT.ObtainReadData();
+        
+		realdp *resultptr = result->ObtainWriteEntireData();
+		integer idx = 0;
+		realdp r2 = static_cast<realdp> (sqrt(2.0));
+		for (integer i = 0; i < n; i++)
+		{
+			resultptr[idx] = LiELiTptr[i + i * n];
+			idx++;
+		}
+
+		for (integer i = 0; i < n; i++)
+		{
+			for (integer j = i + 1; j < n; j++)
+			{
+				resultptr[idx] = LiELiTptr[j + i * n] * r2;
+				idx++;
+			}
+		}
+        return *result;
+	};
+
+	Vector &SPDManifold::ObtainExtrAF(const Variable &x, const Vector &intretax, Vector *result) const
+	{
+        if (!x.FieldsExist("_L"))
+        {
+            x.CholDecom();
+        }
+        
+		const realdp *intretaxptr = intretax.ObtainReadData();
+		realdp *resultptr = result->ObtainWriteEntireData();
+
+		integer idx = 0;
+		realdp r2 = static_cast<realdp> (sqrt(2.0));
+		for (integer i = 0; i < n; i++)
+		{
+			resultptr[i + i * n] = intretaxptr[idx];
+			idx++;
+		}
+
+		for (integer i = 0; i < n; i++)
+		{
+			for (integer j = i + 1; j < n; j++)
+			{
+				resultptr[j + i * n] = intretaxptr[idx] / r2;
+				resultptr[i + j * n] = resultptr[j + i * n];
+				idx++;
+			}
+		}
+        
+        Vector tmp(n, n); tmp.AlphaABaddBetaThis(1, x.Field("_L"), GLOBAL::N, *result, GLOBAL::N, 0);
+        result->AlphaABaddBetaThis(1, tmp, GLOBAL::N, x.Field("_L"), GLOBAL::T, 0);
+        
+        return *result;
+	};
+
+	realdp SPDManifold::DistAF(const Variable &x1, const Variable &x2) const
+	{ /* dis(x, y) = |log(Lx^{-1} y Lx^{-T})|_F */
+		
+        if (!x1.FieldsExist("_L"))
+        {
+            x1.CholDecom();
+        }
+        
+        if (!x2.FieldsExist("_L"))
+        {
+            x2.CholDecom();
+        }
+        Vector tmp = x2.Field("_L").TriangleLinSol(x1.Field("_L"));
+        Vector tmp2(EMPTYEXTR); tmp2.AlphaABaddBetaThis(1, tmp, GLOBAL::N, tmp, GLOBAL::T, 0);
+        tmp2.EigenDecomSym();
+        Vector EigVals = tmp2.Field("_EigVal");
+        realdp *EigValsptr = EigVals.ObtainWritePartialData();
+        for (integer i = 0; i < n; i++)
+            EigValsptr[i] = std::log(EigValsptr[i]);
+        return EigVals.Fnorm();
+	};
+
+	Vector &SPDManifold::EucGradToGradEuc(const Variable &x, const Vector &egf, const Problem *prob, Vector *result) const
+	{
+        if (prob->GetUseHess())
+        {
+            /*The copy on write is necessary. The reason is that the egf may be from a component in a product of elements.
+            Therefore, if CopyOnWrite is not used, then the attached data in x and the product of elements share the same
+            memory. This may cause an issue: if the product of elements are released before the attached data in x, then
+            release the attached data in x would attempt to delete memory that has been released. This is an error!*/
+            Vector EGrad(egf);
+            EGrad.CopyOnWrite();
+            x.AddToFields("EGrad", EGrad);
+        }
+        *result = egf;
+        return *result;
+	};
+
+	Vector &SPDManifold::EucHvToHvEuc(const Variable &x, const Vector &etax, const Vector &exix, const Problem *prob, Vector *result) const
+	{
+        *result = exix;
+        return *result;
+	};
+
+    Vector &SPDManifold::VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
+    {
+        if (HasHHR)
+            return LCVectorTransport(x, etax, y, xix, result);
+
+        if (VecTran == SPDPARATRAN)
+            return ParallelTranslation(x, etax, y, xix, result);
+        
+        if (VecTran == SPDVTPARA)
+            return VectorTransportParallelization(x, etax, y, xix, result);
+
+        printf("Warning: the VectorTransport is not valid! Use vector transport by parallelization instead!");
+        return VectorTransportParallelization(x, etax, y, xix, result);
+    };
+
+    Vector &SPDManifold::ParallelTranslation(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
+    {
+        if (!x.FieldsExist("_L"))
+        {
+            x.CholDecom();
+        }
+        Vector exetax(EMPTYEXTR), exxix(EMPTYEXTR);
+        if(IsIntrApproach)
+        {
+            ObtainExtr(x, etax, &exetax);
+            ObtainExtr(x, xix, &exxix);
+        }
+        else
+        {
+            exetax = etax;
+            exxix = xix;
+        }
+        
+        Vector LiE = exetax.TriangleLinSol(x.Field("_L"));
+        Vector LiELiThalf = LiE.GetTranspose().TriangleLinSol(x.Field("_L"));
+        LiELiThalf.ScalarTimesThis(0.5);
+        Vector tmp = x.Field("_L") * LiELiThalf.ExpSym().TriangleLinSol(x.Field("_L"), GLOBAL::T).GetTranspose();
+        LiE.AlphaABaddBetaThis(1, tmp, GLOBAL::N, exxix, GLOBAL::N, 0); /*LiE is for temporary storage*/
+        result->AlphaABaddBetaThis(1, LiE, GLOBAL::N, tmp, GLOBAL::T, 0); /* *result = tmp * exxix * tmp.GetTranspose(); */
+        return *result;
+    };
+        
+    Vector &SPDManifold::VectorTransportParallelization(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
+    {
+        if(IsIntrApproach)
+        {
+            *result = xix;
+            return *result;
+        }
+        Vector tmp(EMPTYEXTR); ObtainIntr(x, xix, &tmp);
+        return ObtainExtr(y, tmp, result);
+    };
+
+	Vector &SPDManifold::ObtainIntrEuc(const Variable &x, const Vector &etax, Vector *result) const
+	{
+		const realdp *etaxTV = etax.ObtainReadData();
+		realdp *resultTV = result->ObtainWriteEntireData();
+		integer idx = 0;
+		realdp r2 = static_cast<realdp> (sqrt(2.0));
+		for (integer i = 0; i < n; i++)
+		{
+			resultTV[idx] = etaxTV[i + i * n];
+			idx++;
+		}
+
+		for (integer i = 0; i < n; i++)
+		{
+			for (integer j = i + 1; j < n; j++)
+			{
+				resultTV[idx] = etaxTV[j + i * n] * r2;
+				idx++;
+			}
+		}
+        return *result;
+	};
+
+	Vector &SPDManifold::ObtainExtrEuc(const Variable &x, const Vector &intretax, Vector *result) const
+	{
+		const realdp *intretaxTV = intretax.ObtainReadData();
+		realdp *resultTV = result->ObtainWriteEntireData();
+
+		integer idx = 0;
+		realdp r2 = static_cast<realdp> (sqrt(2.0));
+		for (integer i = 0; i < n; i++)
+		{
+			resultTV[i + i * n] = intretaxTV[idx];
+			idx++;
+		}
+
+		for (integer i = 0; i < n; i++)
+		{
+			for (integer j = i + 1; j < n; j++)
+			{
+				resultTV[j + i * n] = intretaxTV[idx] / r2;
+				resultTV[i + j * n] = resultTV[j + i * n];
+				idx++;
+			}
+		}
+        return *result;
+	};
+
+	realdp SPDManifold::DistEuc(const Variable &x1, const Variable &x2) const
+	{
+        return (x1 - x2).Fnorm();
+	};
+}; /*end of ROPTLIB namespace*/
-- 
2.43.0


From 7ff02a591029ca4a840dc20c11bbc79bfb986ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 45/92] fix: conjugate gradient directions use the
 preconditioned gradient

---
 Solvers/RCG.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Solvers/RCG.cpp b/Solvers/RCG.cpp
index 70d174d..23f3b9e 100644
--- a/Solvers/RCG.cpp
+++ b/Solvers/RCG.cpp
@@ -47,7 +47,7 @@ namespace ROPTLIB{
 		char *status;
 
 		printf("RCG METHOD PARAMETERS:\n");
-		status = (RCGmethod >= 0 && RCGmethod <= RCGMETHODSLENGTH) ? YES : NO;
+		status = (RCGmethod >= 0 && RCGmethod < RCGMETHODSLENGTH) ? YES : NO;
 		printf("RCGmethod     :%15s[%s]\n", RCGmethodSetnames[RCGmethod].c_str(), status);
 	};
 
@@ -141,9 +141,9 @@ namespace ROPTLIB{
         }
         Pgf1 = Pgf2;
         if(sigma == 0)
-            Mani->ScalarTimesVector(x2, -1, gf2, &eta1);
+            Mani->ScalarTimesVector(x2, -1, Pgf2, &eta1);
         else
-            Mani->VectorLinearCombination(x2, -1, gf2, sigma, Teta1, &eta1);
+            Mani->VectorLinearCombination(x2, -1, Pgf2, sigma, Teta1, &eta1);
 	};
 
 	void RCG::SetParams(PARAMSMAP params)
-- 
2.43.0


From 8f403f6faa750ff7aed680f6574e412847e3cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 46/92] fix: truncated CG of RNewton keeps its model value and
 its last accepted iterate

---
 Solvers/RNewton.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/Solvers/RNewton.cpp b/Solvers/RNewton.cpp
index 31b7b63..7d6c796 100644
--- a/Solvers/RNewton.cpp
+++ b/Solvers/RNewton.cpp
@@ -89,7 +89,7 @@ namespace ROPTLIB{
 
 	void RNewton::tCG_LS(void)
 	{
-        Vector Heta(eta1), r(Prob->GetDomain()->GetEMPTY()), z(r), delta(r), Hd(r);
+        Vector Heta(eta1), r(Prob->GetDomain()->GetEMPTY()), z(r), delta(r), Hd(r), neweta(eta1), newHeta(eta1);
 		realdp r_r, norm_r, norm_r0, z_r, d_Hd, alphatemp, tempnum, zold_rold, betatemp;
 		integer j;
 
@@ -130,15 +130,18 @@ namespace ROPTLIB{
 				tCGLSSMstatus = LSSM_NEGCURVTURE; /* negative curvature*/
 				break;
 			}
-            Mani->ScalarVectorAddVector(x1, alphatemp, delta, eta1, &eta1); /*eta1 = eta1 + alphatemp * delta*/
+            Mani->ScalarVectorAddVector(x1, alphatemp, delta, eta1, &neweta); /*neweta = eta1 + alphatemp * delta*/
+            Mani->ScalarVectorAddVector(x1, alphatemp, Hd, Heta, &newHeta); /*newHeta = Heta + alphatemp * Hd*/
             
-			new_modelv = Mani->Metric(x1, eta1, gf1) + 0.5 * Mani->Metric(x1, eta1, Heta);
-			if (new_modelv >= modelv || Mani->Metric(x1, eta1, gf1) >= -std::numeric_limits<realdp>::epsilon())
+			new_modelv = Mani->Metric(x1, neweta, gf1) + 0.5 * Mani->Metric(x1, neweta, newHeta);
+			if (new_modelv >= modelv || Mani->Metric(x1, neweta, gf1) >= -std::numeric_limits<realdp>::epsilon())
 			{
 				tCGLSSMstatus = LSSM_ERROR;
 				break;
 			}
 
+			eta1 = neweta;
+			Heta = newHeta;
 			modelv = new_modelv;
             
             Mani->ScalarVectorAddVector(x1, alphatemp, Hd, r, &r); /*r = r + alphatemp * Hd*/
@@ -161,11 +164,11 @@ namespace ROPTLIB{
 			zold_rold = z_r;
 			z_r = Mani->Metric(x1, z, r);
 			betatemp = z_r / zold_rold;
-            Mani->ScalarTimesVector(x2, betatemp, delta, &delta);
-            Mani->ScalarVectorAddVector(x2, -1, z, delta, &delta); /*delta =  - z + betatemp * delta*/
+            Mani->ScalarTimesVector(x1, betatemp, delta, &delta);
+            Mani->ScalarVectorAddVector(x1, -1, z, delta, &delta); /*delta =  - z + betatemp * delta*/
 		}
 		innerIter = j;
-		if (j == 0)
+		if (j == 0 && tCGLSSMstatus != LSSM_LCON && tCGLSSMstatus != LSSM_SCON)
             eta1 = delta;
 	};
 
-- 
2.43.0


From e9546abac6f16c2968d0b6c853447c36a0a7af89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:47 +0000
Subject: [PATCH 47/92] fix: a failing strong Wolfe zoom returns a consistent,
 best known step

---
 Solvers/SolversSMLS.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index e73b786..39803e4 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -481,7 +481,7 @@ namespace ROPTLIB{
 	/* Algorithm 3.5 in NW06 */
 	void SolversSMLS::LinesearchStrongWolfe(void)
 	{
-		realdp prestepsize = 0, fpre = std::numeric_limits<realdp>::max(), newslopepre = initialslope;
+		realdp prestepsize = 0, fpre = f1, newslopepre = initialslope;
         realdp tstepsize = 0;
 		LSstatus = LSSM_SUCCESS;
 		while (1)
@@ -530,6 +530,9 @@ namespace ROPTLIB{
 			times++;
 			if (times >= 10)
 			{
+				stepsize = xlo; /*the best step size found so far*/
+				f2 = h();
+				newslope = dh();
 				LSstatus = LSSM_LSERROR;
 				return;
 			}
@@ -557,6 +560,12 @@ namespace ROPTLIB{
 			}
 			if (stepsize <= Minstepsize)
 			{
+				if (stepsize != xlo)
+				{
+					stepsize = xlo; /*the best step size found so far*/
+					f2 = h();
+					newslope = dh();
+				}
 				LSstatus = LSSM_MINSTEPSIZE;
 				return;
 			}
-- 
2.43.0


From e936211dec055b3550da67b8105ee229f84b1f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 48/92] fix: backtracking reports the step it evaluated and
 respects the minimum step

---
 Solvers/SolversSMLS.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 39803e4..7992e09 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -328,8 +328,7 @@ namespace ROPTLIB{
 			realdp LS_ratio = LS_ratio1;
 			while (maxpref - f2 < -LS_alpha * initialslope * stepsize)
 			{
-				stepsize *= LS_ratio;
-				if (stepsize < Minstepsize)
+				if (stepsize * LS_ratio < Minstepsize)
 				{
 					if (Verbose > FINALRESULT)
 					{
@@ -338,6 +337,7 @@ namespace ROPTLIB{
 					LSstatus = LSSM_MINSTEPSIZE;
 					break;
 				}
+				stepsize *= LS_ratio;
 				f2 = h();
 			}
             newslope = dh();
@@ -351,14 +351,26 @@ namespace ROPTLIB{
 			stepsize = -initialslope * prestepsize * prestepsize / 2 / (f2 - f1 - initialslope * prestepsize);
 			stepsize = (stepsize < LS_ratio2 * prestepsize) ? stepsize : LS_ratio2 * prestepsize;
 			stepsize = (stepsize > LS_ratio1 * prestepsize) ? stepsize : LS_ratio1 * prestepsize;
-			f2pre = f2;
-			prestepsize2 = prestepsize;
-			f2 = h();
-			prestepsize = stepsize;
+			if (stepsize < Minstepsize)
+			{
+				if (Verbose > FINALRESULT)
+				{
+					printf("Warning: step size reaches the minimum: %3.2e!\n", Minstepsize);
+				}
+				stepsize = prestepsize;
+				LSstatus = LSSM_MINSTEPSIZE;
+			}
+			else
+			{
+				f2pre = f2;
+				prestepsize2 = prestepsize;
+				f2 = h();
+				prestepsize = stepsize;
+			}
 		}
 
 		realdp a11, a12, a21, a22, b1, b2, c, a = 0, b = 0;
-		while (maxpref - f2 < -LS_alpha * initialslope * stepsize)
+		while (LSstatus == LSSM_SUCCESS && maxpref - f2 < -LS_alpha * initialslope * stepsize)
 		{
 			a11 = static_cast<realdp> (1) / prestepsize / prestepsize;
 			a12 = static_cast<realdp> (- 1) / prestepsize2 / prestepsize2;
@@ -378,6 +390,7 @@ namespace ROPTLIB{
 				{
 					printf("Warning: step size reaches the minimum: %3.2e!\n", Minstepsize);
 				}
+				stepsize = prestepsize;
 				LSstatus = LSSM_MINSTEPSIZE;
 				break;
 			}
-- 
2.43.0


From cff91d9edc0f6d423f96d9636ed1aad27733e557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 49/92] fix: Wolfe line search reports success only when the
 curvature condition holds and cannot loop on nan

---
 Solvers/SolversSMLS.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 7992e09..7784cd8 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -723,7 +723,6 @@ namespace ROPTLIB{
 				newslope = dh();
 				if (newslope < LS_beta * initialslope)
 				{
-					times = 0;
 					while (f2 <= f1 + LS_alpha * stepsize * initialslope && newslope < LS_beta * initialslope && stepsize < Maxstepsize)
 					{
 						prestepsize = stepsize;
@@ -732,9 +731,6 @@ namespace ROPTLIB{
 						f2 = h();
 						if (f2 <= f1 + LS_alpha * stepsize * initialslope)
 							newslope = dh();
-						times++;
-						if (times > 10)
-							break;
 					}
 					if (stepsize >= Maxstepsize)
 					{
@@ -784,6 +780,7 @@ namespace ROPTLIB{
 						}
 						if (newslope < LS_beta * initialslope)
 						{
+							stepsize = stepsizelo; /*the largest step size known to satisfy the first condition*/
 							f2 = h();
 							newslope = dh();
 							LSstatus = LSSM_NOCURVATURE;
@@ -824,7 +821,7 @@ namespace ROPTLIB{
 				}
 				prestepsize = stepsize;
 				f2pre = f2;
-				stepsize = (steptemp <= static_cast<realdp> (1e-2) * stepsize) ? static_cast<realdp> (1e-2) * stepsize : steptemp;
+				stepsize = (steptemp > static_cast<realdp> (1e-2) * stepsize) ? steptemp : static_cast<realdp> (1e-2) * stepsize;
 			}
 		}
 	};
-- 
2.43.0


From 30fac808b397ecca5490da2536dd71fe62fdd106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:12 +0000
Subject: [PATCH 50/92] fix: limit the initial step, count its transports and
 stay at the iterate when a line search fails

---
 Solvers/SolversSMLS.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 7784cd8..7984c08 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -101,6 +101,10 @@ namespace ROPTLIB{
 				printf("New function value is either nan or inf. Stop!\n");
 				break;
 			}
+
+			if (LSstatus != LSSM_SUCCESS && f2 > f1) /*Stop at the current iterate if the failed line search has not found any decrease*/
+				break;
+
 			iter++;
 
 			/*Update the Hessian approximation for quasi-Newton methods 
@@ -214,8 +218,8 @@ namespace ROPTLIB{
 			case LSSM_BBSTEP:
 				/*Since x1 and x2 are swapped, gf1 and gf2 are swapped, we have the following formula.*/
                     
-                Mani->VectorTransport(x2, eta2, x1, eta2, &s);
-                Mani->VectorTransport(x2, eta2, x1, gf2, &y);
+                Mani->VectorTransport(x2, eta2, x1, eta2, &s); nV++;
+                Mani->VectorTransport(x2, eta2, x1, gf2, &y); nVp++;
                 Mani->VectorLinearCombination(x1, 1, gf1, -1, y, &y);
 				BB1 = Mani->Metric(x2, s, s) / Mani->Metric(x2, s, y);
 				BB2 = Mani->Metric(x2, s, y) / Mani->Metric(x2, y, y);
@@ -302,6 +306,7 @@ namespace ROPTLIB{
             stepsize = (stepsize < quadintstepsize / 100) ? quadintstepsize : stepsize;
 			stepsize = (stepsize < std::numeric_limits<realdp>::epsilon()) ? Initstepsize / ngf1 : stepsize;
 		}
+		stepsize = (stepsize > Maxstepsize) ? Maxstepsize : stepsize;
 	};
 
 	void SolversSMLS::LinesearchArmijo(void)
@@ -657,9 +662,9 @@ namespace ROPTLIB{
 
     void SolversSMLS::PrintFinalInfo(void)
     {
-        printf("i:%d,f:%.3e,", iter, f2);
+        printf("i:%d,f:%.3e,", iter, f1);
 
-        printf("|gf|:%.3e,|gf|/|gf0|:%.3e,time:%.2g,", ngf2, ngf2/ngf0, static_cast<realdp>(getTickCount() - starttime) / CLK_PS);
+        printf("|gf|:%.3e,|gf|/|gf0|:%.3e,time:%.2g,", ngf1, ngf1/ngf0, static_cast<realdp>(getTickCount() - starttime) / CLK_PS);
         
         printf("nf:%d,ng:%d,", nf, ng);
         
-- 
2.43.0


From 2423d2e402949cebb925db6d0f2341f700193f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 51/92] fix: locking condition on the sphere with parallel
 translation and for vanishing steps

---
 Manifolds/Manifold.cpp |  5 +++++
 Manifolds/Sphere.cpp   | 27 ++++++++++++++++-----------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 6abd73a..b9e1ea4 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -718,6 +718,11 @@ namespace ROPTLIB{
             etax.AddToFields("tau1tau2", zerotau);
             etax.AddToFields("nu1", nu1);
             etax.AddToFields("nu2", nu2);
+            Element onebeta(3);
+            onebeta.SetToZeros();
+            onebeta.ObtainWritePartialData()[0] = 1;
+            etax.AddToFields("beta", onebeta);
+            etax.AddToFields("betaTReta", nu1);
             return;
         }
         
diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index 4aaeef8..b35ccbd 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -87,12 +87,17 @@ namespace ROPTLIB{
 		realdp etaxtxix = Metric(x, etax, xix);
 		realdp normetax = sqrt(Metric(x, etax, etax));
 		if (normetax < std::numeric_limits<realdp>::epsilon())
-			return Projection(y, xix, result);
-
-		realdp sinnormetax = sin(normetax);
-        VectorLinearCombination(x, -sinnormetax * etaxtxix / normetax, x, sinnormetax / normetax, xix, result);
-        ScalarVectorAddVector(x, (cos(normetax) - sinnormetax / normetax) * etaxtxix / normetax / normetax, etax, *result, result);
-        
+		{
+			Projection(y, xix, result);
+			if (normetax == 0)
+				return *result;
+		}
+		else
+		{
+			realdp sinnormetax = sin(normetax);
+			VectorLinearCombination(x, -sinnormetax * etaxtxix / normetax, x, sinnormetax / normetax, xix, result);
+			ScalarVectorAddVector(x, (cos(normetax) - sinnormetax / normetax) * etaxtxix / normetax / normetax, etax, *result, result);
+		}
 
         if (IsEtaXiSameDir && HasHHR)
         {
@@ -215,7 +220,7 @@ namespace ROPTLIB{
 
 	Vector &Sphere::VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
 	{
-		if (VecTran == STIE_PARALLELTRANSLATION)
+		if (VecTran == STIE_PARALLELTRANSLATION && !HasHHR)
 		{
 			return ExpVectorTransport(x, etax, y, xix, result);
 		}
@@ -224,7 +229,7 @@ namespace ROPTLIB{
 
 	Vector &Sphere::InverseVectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xiy, Vector *result) const
 	{
-		if (VecTran == STIE_PARALLELTRANSLATION)
+		if (VecTran == STIE_PARALLELTRANSLATION && !HasHHR)
 		{
 			return ExpInverseVectorTransport(x, etax, y, xiy, result);
 		}
@@ -233,7 +238,7 @@ namespace ROPTLIB{
 
 	LinearOPE &Sphere::HInvTran(const Variable &x, const Vector &etax, const Variable &y, const LinearOPE &Hx, integer start, integer end, LinearOPE *result) const
 	{
-		if (VecTran == STIE_PARALLELTRANSLATION)
+		if (VecTran == STIE_PARALLELTRANSLATION && !HasHHR)
 		{
 			return ExpHInvTran(x, etax, y, Hx, start, end, result);
 		}
@@ -242,7 +247,7 @@ namespace ROPTLIB{
 
 	LinearOPE &Sphere::TranH(const Variable &x, const Vector &etax, const Variable &y, const LinearOPE &Hx, integer start, integer end, LinearOPE *result) const
 	{
-		if (VecTran == STIE_PARALLELTRANSLATION)
+		if (VecTran == STIE_PARALLELTRANSLATION && !HasHHR)
 		{
 			return ExpTranH(x, etax, y, Hx, start, end, result);
 		}
@@ -251,7 +256,7 @@ namespace ROPTLIB{
 
 	LinearOPE &Sphere::TranHInvTran(const Variable &x, const Vector &etax, const Variable &y, const LinearOPE &Hx, LinearOPE *result) const
 	{
-		if (VecTran == STIE_PARALLELTRANSLATION)
+		if (VecTran == STIE_PARALLELTRANSLATION && !HasHHR)
 		{
 			return ExpTranHInvTran(x, etax, y, Hx, result);
 		}
-- 
2.43.0


From 989da8a6e4d991b30c73453d8874ad407879683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 52/92] fix: trust-region series record the iterate and its
 gradient, candidates included only when accepted

---
 Solvers/SolversSMTR.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index 0b3875b..5cdf9d8 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -108,8 +108,8 @@ namespace ROPTLIB{
 			if (Verbose >= ITERRESULT)
 			{
 				timeSeriesptr[iter] = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
-				funSeriesptr[iter] = f2;
-                gradSeriesptr[iter] = ngf2;
+				funSeriesptr[iter] = f1;
+                gradSeriesptr[iter] = ngf1;
 			}
 		}
 		ComTime = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
@@ -314,7 +314,7 @@ namespace ROPTLIB{
 
 	void SolversSMTR::SetProbX(const Problem *prob, const Variable *initialx)
 	{
-		Solvers::SetProbX(prob, initialx);
+		SolversSM::SetProbX(prob, initialx);
         Heta2 = Prob->GetDomain()->GetEMPTY();
 	};
 
-- 
2.43.0


From a3ac133eede717a54215806b9d3c2a5a9b9bdaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:01 +0000
Subject: [PATCH 53/92] fix: RTRSR1 scales its initial Hessian before the first
 update and never divides by zero

---
 Solvers/RTRSR1.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Solvers/RTRSR1.cpp b/Solvers/RTRSR1.cpp
index d6b017f..51b4962 100644
--- a/Solvers/RTRSR1.cpp
+++ b/Solvers/RTRSR1.cpp
@@ -81,15 +81,23 @@ namespace ROPTLIB{
         Mani->InverseVectorTransport(x1, eta2, x2, gf2, &y);  nV++;
         Mani->ScalarVectorAddVector(x1, -1, gf1, y, &y);
         s = eta2;
+
+        if (iter == 0) /*scale the initial Hessian approximation*/
+        {
+            realdp scale = Mani->Metric(x1, y, y) / Mani->Metric(x1, s, y);
+            if (!std::isnan(scale) && !std::isinf(scale) && scale != 0)
+            {
+                B.ScaledIdOPE(scale);
+                Mani->ScalarTimesVector(x1, scale, s, &Heta2);
+            }
+        }
+
         Vector zeta(y); Mani->ScalarVectorAddVector(x1, -1, Heta2, y, &zeta);
         denorminator = Mani->Metric(x1, s, zeta);
         
-        if (iter == 1)
-            B.ScaledIdOPE(Mani->Metric(x1, y, y) / Mani->Metric(x1, s, y));
-        
         inpss = Mani->Metric(x1, s, s);
         norm2ymBs = Mani->Metric(x1, zeta, zeta);
-        if (denorminator * denorminator >= mintolsq * inpss * norm2ymBs && (norm2ymBs >= mintolsq || ngf2 / ngf0 < 1e-3))
+        if (denorminator != 0 && denorminator * denorminator >= mintolsq * inpss * norm2ymBs && (norm2ymBs >= mintolsq || ngf2 / ngf0 < 1e-3))
         {
             Mani->HaddScaledRank1OPE(x1, B, static_cast<realdp> (1) / denorminator, zeta, zeta, &B);
             isupdated = true;
-- 
2.43.0


From 6735fb27c362b9df0229bcd9ee613c595c8efc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 54/92] fix: LRTRSR1 solves its local model for any memory
 length, and in the hard case

---
 Solvers/LRTRSR1.cpp | 133 +++++++++++++++++++++++---------------------
 1 file changed, 71 insertions(+), 62 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index ef2c5f6..bc83e46 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -127,7 +127,8 @@ namespace ROPTLIB{
         eigenvalue decomposition: U D U^T = eig(RT^T * PMGQ^{-1} RT)
         P_parallel = Q * U
         Therefore: Psi * (PMGQ)^{-1} * Psi = Q * U * D * U^T * Q^T = P_parallel * D * P_parallel^T */
-        Vector RinvPMGQRT, P_parallel(Psi), D, Psig(Psi.Getcol(), 1), g_parallel(Psi.Getcol(), 1);
+        integer m = (k < n) ? k : n; /*dimension of the space spanned by the columns of Psi*/
+        Vector RinvPMGQRT, P_parallel(n, m), D, Psig(k, 1), g_parallel(m, 1);
         if(k > 0)
         {
             Psi.QRDecom();
@@ -141,40 +142,39 @@ namespace ROPTLIB{
             g_parallel.AlphaABaddBetaThis(1, P_parallel, GLOBAL::T, gf1reshape, GLOBAL::N, 0); /* g_parallel = P_parallel.GetTranspose() * gf1.GetReshape(n); */
         }
         
-        Vector Lambda(k + 1);
+        integer num = (m < n) ? m + 1 : m; /*number of eigenvalues to be considered. gamma is an eigenvalue only if m < n*/
+        Vector Lambda(num);
         realdp *Lambdaptr = Lambda.ObtainWriteEntireData();
         const realdp *Dptr = D.ObtainReadData();
-        for (integer i = 0; i < k; i++)
+        for (integer i = 0; i < m; i++)
             Lambdaptr[i] = Dptr[i] + gamma;
-        Lambdaptr[k] = gamma;
+        if (m < n)
+            Lambdaptr[m] = gamma;
         
-        for (integer i = 0; i < k + 1; i++)
+        for (integer i = 0; i < num; i++)
             if (fabs(Lambdaptr[i]) <= tolLocalNewton)
                 Lambdaptr[i] = 0;
         
         realdp lambda_min = Lambdaptr[0];
-        for(integer i = 0; i < k + 1; i++)
+        for(integer i = 0; i < num; i++)
             if(lambda_min > Lambdaptr[i])
                 lambda_min = Lambdaptr[i];
-        realdp a_kp2 = std::sqrt(Mani->Metric(x1, gf1, gf1) - ((k == 0) ? 0 : g_parallel.DotProduct(g_parallel)));
-        
-        if (a_kp2 * a_kp2 < tolLocalNewton)
-            a_kp2 = 0;
+        realdp a_kp2sq = Mani->Metric(x1, gf1, gf1) - ((k == 0) ? 0 : g_parallel.DotProduct(g_parallel));
+        realdp a_kp2 = (a_kp2sq < tolLocalNewton) ? 0 : std::sqrt(a_kp2sq);
         
-        Vector a_j(k + 1);
+        Vector a_j(num);
         realdp *a_jptr = a_j.ObtainWriteEntireData();
         const realdp *g_parallelptr = g_parallel.ObtainReadData();
         
-        for (integer i = 0; i < k; i++)
+        for (integer i = 0; i < m; i++)
             a_jptr[i] = g_parallelptr[i];
-        a_jptr[k] = a_kp2;
+        if (m < n)
+            a_jptr[m] = a_kp2;
         realdp tmpv = 0;
-        for (integer i = 0; i < k + 1; i++)
+        for (integer i = 0; i < num; i++)
             tmpv += a_jptr[i] * a_jptr[i] / Lambdaptr[i] / Lambdaptr[i];
         tmpv = sqrt(tmpv);
 
-        realdp *pStar = eta2.ObtainWriteEntireData();
-
         realdp sigmaStar = 0;
         tCGstatusSM = TRSM_MIN;
 
@@ -189,51 +189,57 @@ namespace ROPTLIB{
             if (lambda_min <= 0 && PhiBar_fg(-lambda_min, Delta, Lambda, a_j) > 0)
             {
                 sigmaStar = -lambda_min;
-                realdp *v = new realdp[k + 1];
-                for (integer i = 0; i < k + 1; i++)
+                /*eta2 = - P_parallel * ((Lambda + sigmaStar)^+ g_parallel) - (gf1 - P_parallel * g_parallel) / (gamma + sigmaStar)*/
+                realdp coef = (m < n && fabs(gamma + sigmaStar) > tolLocalNewton) ? static_cast<realdp> (1) / (gamma + sigmaStar) : 0;
+                Vector v(m, 1);
+                realdp *vptr = v.ObtainWriteEntireData();
+                for (integer i = 0; i < m; i++)
                 {
+                    vptr[i] = coef * a_jptr[i];
                     if (fabs(Lambdaptr[i] + sigmaStar) > tolLocalNewton)
-                    {
-                        v[i] = a_jptr[i] / (Lambdaptr[i] + sigmaStar);
-                    }
-                    else
-                    {
-                        v[i] = 0;
-                    }
-                }
-                const realdp *P_parallelptr = P_parallel.ObtainReadData();
-                gemm_(GLOBAL::N, GLOBAL::N, &n, &GLOBAL::IONE, &k, &GLOBAL::DNONE, const_cast<realdp *> (P_parallelptr), &n, v, &k, &GLOBAL::DZERO, pStar, &n);
-                delete[] v;
-                if (fabs(gamma + sigmaStar) > tolLocalNewton)
-                {
-                    eta2 = (P_parallel * g_parallel - gf1) / (gamma + sigmaStar) + eta2;
+                        vptr[i] -= a_jptr[i] / (Lambdaptr[i] + sigmaStar);
                 }
+                eta2 = gf1;
+                if (m > 0)
+                    eta2.AlphaABaddBetaThis(1, P_parallel, GLOBAL::N, v, GLOBAL::N, -coef);
+                else
+                    eta2.ScalarTimesThis(-coef);
 
                 if (lambda_min < 0)
                 {
-                    realdp alpha = sqrt(Delta * Delta - dot_(&n, pStar, &GLOBAL::IONE, pStar, &GLOBAL::IONE));
-
-                    Vector zstar(n);
-                    if (fabs(lambda_min - Lambdaptr[0]) < tolLocalNewton)
+                    /*move along an eigenvector of the smallest eigenvalue to the boundary of the trust region*/
+                    realdp alpha = sqrt(Delta * Delta - eta2.DotProduct(eta2));
+                    Vector zstar(n, 1);
+                    realdp *zstarptr = zstar.ObtainWriteEntireData();
+                    const realdp *P_parallelptr = P_parallel.ObtainReadData();
+                    if (m > 0 && fabs(lambda_min - Lambdaptr[0]) < tolLocalNewton)
                     {
-                        zstar = (alpha / std::sqrt(P_parallel.DotProduct(P_parallel))) * P_parallel;
+                        for (integer j = 0; j < n; j++)
+                            zstarptr[j] = P_parallelptr[j];
                     }
                     else
-                    {
-                        realdp norm_umin = 1;
-                        for (integer i = 0; i < k; i++)
+                    {/*a vector orthogonal to the columns of P_parallel: the largest one of (I - P_parallel * P_parallel^T) e_i*/
+                        integer idxmax = 0;
+                        realdp normsqmax = -1;
+                        for (integer i = 0; i < n; i++)
+                        {
+                            realdp normsq = 1;
+                            for (integer j = 0; j < m; j++)
+                                normsq -= P_parallelptr[i + j * n] * P_parallelptr[i + j * n];
+                            if (normsq > normsqmax)
+                            {
+                                normsqmax = normsq;
+                                idxmax = i;
+                            }
+                        }
+                        for (integer i = 0; i < n; i++)
                         {
-                            Vector subM = P_parallel.GetSubmatrix(i, i, 0, k - 1);
-                            zstar.AlphaABaddBetaThis(1, P_parallel, GLOBAL::N, subM, GLOBAL::T, 0); /*zstar = P_parallel * P_parallel.GetSubmatrix(i, i, 0, k - 1).GetTranspose();*/
-                            realdp *zstarptr = zstar.ObtainWritePartialData();
-                            zstarptr[i] += 1;
-                            norm_umin = std::sqrt(zstar.DotProduct(zstar));
-                            if (norm_umin > tolLocalNewton)
-                                break;
+                            zstarptr[i] = (i == idxmax) ? 1 : 0;
+                            for (integer j = 0; j < m; j++)
+                                zstarptr[i] -= P_parallelptr[i + j * n] * P_parallelptr[idxmax + j * n];
                         }
-                        zstar = (alpha / norm_umin) * zstar;
                     }
-                    eta2 = zstar + eta2;
+                    eta2.AlphaXaddThis(alpha / zstar.Fnorm(), zstar);
                 }
                 tCGstatusSM = TRSM_NEGCURVTURE;
             }
@@ -246,7 +252,7 @@ namespace ROPTLIB{
                 else
                 {
                     realdp sigmaHat = 0;
-                    for (integer i = 0; i < k + 1; i++)
+                    for (integer i = 0; i < num; i++)
                     {
                         if (sigmaHat < a_jptr[i] / Delta - Lambdaptr[i])
                             sigmaHat = a_jptr[i] / Delta - Lambdaptr[i];
@@ -309,7 +315,7 @@ namespace ROPTLIB{
 
 	realdp LRTRSR1::PhiBar_fg(realdp nlambda_min, realdp Delta, const Vector &Lambda, const Vector &a_j, realdp *gf)
 	{
-		integer k = Currentlength;    /*number of columns*/
+		integer num = Lambda.Getlength();    /*number of eigenvalues*/
         Vector tmp = Lambda + nlambda_min;
         
 		realdp eps_tol = static_cast<realdp> (1e-10);
@@ -318,7 +324,7 @@ namespace ROPTLIB{
         realdp *tmpptr = tmp.ObtainWritePartialData();
 
 		bool flag = false;
-		for (integer i = 0; i < k + 1; i++)
+		for (integer i = 0; i < num; i++)
 		{
 			if (fabs(a_jptr[i]) < eps_tol || fabs(tmpptr[i]) < eps_tol)
 			{
@@ -330,7 +336,7 @@ namespace ROPTLIB{
 		if (flag)
 		{
 			realdp pnorm2 = 0;
-			for (integer i = 0; i < k + 1; i++)
+			for (integer i = 0; i < num; i++)
 			{
 				if (fabs(a_jptr[i]) > eps_tol && fabs(tmpptr[i]) < eps_tol)
 				{
@@ -351,10 +357,10 @@ namespace ROPTLIB{
 			return static_cast<realdp> (1) / norm - static_cast<realdp> (1) / Delta;
 		}
         
-		for (integer i = 0; i < k + 1; i++)
+		for (integer i = 0; i < num; i++)
 			gradf += a_jptr[i] * a_jptr[i] / tmpptr[i] / tmpptr[i] / tmpptr[i];
         
-		for (integer i = 0; i < k + 1; i++)
+		for (integer i = 0; i < num; i++)
 			tmpptr[i] = a_jptr[i] / tmpptr[i];
         
         realdp norm = tmp.Fnorm();
@@ -366,7 +372,7 @@ namespace ROPTLIB{
 
     realdp LRTRSR1::PhiBar_fg(realdp nlambda_min, realdp Delta, const Vector &Lambda, const Vector &a_j)
     {
-        integer k = Currentlength;    /*number of columns*/
+        integer num = Lambda.Getlength();    /*number of eigenvalues*/
         Vector tmp = Lambda + nlambda_min;
         
         realdp eps_tol = static_cast<realdp> (1e-10);
@@ -374,7 +380,7 @@ namespace ROPTLIB{
         realdp *tmpptr = tmp.ObtainWritePartialData();
 
         bool flag = false;
-        for (integer i = 0; i < k + 1; i++)
+        for (integer i = 0; i < num; i++)
         {
             if (fabs(a_jptr[i]) < eps_tol || fabs(tmpptr[i]) < eps_tol)
             {
@@ -386,7 +392,7 @@ namespace ROPTLIB{
         if (flag)
         {
             realdp pnorm2 = 0;
-            for (integer i = 0; i < k + 1; i++)
+            for (integer i = 0; i < num; i++)
             {
                 if (fabs(a_jptr[i]) > eps_tol && fabs(tmpptr[i]) < eps_tol)
                 {
@@ -401,7 +407,7 @@ namespace ROPTLIB{
             realdp norm = sqrt(pnorm2);
             return static_cast<realdp> (1) / norm - static_cast<realdp> (1) / Delta;
         }
-        for (integer i = 0; i < k + 1; i++)
+        for (integer i = 0; i < num; i++)
             tmpptr[i] = a_jptr[i] / tmpptr[i];
         realdp norm = tmp.Fnorm();
         return static_cast<realdp> (1) / norm - static_cast<realdp> (1) / Delta;
@@ -451,6 +457,7 @@ namespace ROPTLIB{
 		{
 			Mani->VectorTransport(x1, eta2, x2, S[i], &S[i]);
 			Mani->VectorTransport(x1, eta2, x2, Y[i], &Y[i]);
+			nVp += 2;
 		}
 	};
 
@@ -519,7 +526,9 @@ namespace ROPTLIB{
         {
             inpsy = Mani->Metric(x1, s, y);
             inpyy = Mani->Metric(x1, y, y);
-            gamma = inpyy / inpsy;
+            realdp tmp = inpyy / inpsy;
+            if (!std::isnan(tmp) && !std::isinf(tmp) && tmp != 0)
+                gamma = tmp;
             Mani->ScalarTimesVector(x1, gamma, s, &Heta2);
         }
         Vector zeta(y); Mani->ScalarVectorAddVector(x1, -1, Heta2, y, &zeta);
@@ -528,12 +537,12 @@ namespace ROPTLIB{
         inpss = Mani->Metric(x1, s, s);
         inpsy = Mani->Metric(x1, s, y);
         
-        if (denorminator * denorminator >= mintolsq * inpss * norm2ymBs && (norm2ymBs >= mintolsq || ngf2 / ngf0 < 1e-3)
+        if (denorminator != 0 && denorminator * denorminator >= mintolsq * inpss * norm2ymBs && (norm2ymBs >= mintolsq || ngf2 / ngf0 < 1e-3)
             && (iter != 0 || fabs(gamma - inpsy / inpss) > mintol)) /* This is for the robustness when the cost
              function is quadratic and its Hessian is identity everywhere. */
         {
             inpyy = Mani->Metric(x1, y, y);
-            if(isupdated == true)
+            if(isupdated == true && inpsy != 0)
                 gamma = inpyy / inpsy;
             
             if(LMrestart && Currentlength >= LengthSY)
-- 
2.43.0


From 00b3afd9d52d8baa2e4db2bda10411b736dac588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 55/92] fix: every run of a solver starts with fresh counters
 and memory

---
 Solvers/LRBFGS.cpp      | 3 +++
 Solvers/LRBFGSSub.cpp   | 3 +++
 Solvers/LRTRSR1.cpp     | 4 ++++
 Solvers/Solvers.cpp     | 1 +
 Solvers/SolversSMLS.cpp | 1 +
 5 files changed, 12 insertions(+)

diff --git a/Solvers/LRBFGS.cpp b/Solvers/LRBFGS.cpp
index 1782b5c..00e6d81 100644
--- a/Solvers/LRBFGS.cpp
+++ b/Solvers/LRBFGS.cpp
@@ -87,6 +87,9 @@ namespace ROPTLIB{
 		if (RHO != nullptr)
 			delete[] RHO;
 		RHO = new realdp[LengthSY];
+		Currentlength = 0;
+		beginidx = 0;
+		gamma = 1;
 		SolversSMLS::Run();
 	};
 
diff --git a/Solvers/LRBFGSSub.cpp b/Solvers/LRBFGSSub.cpp
index 8c70bac..77d4134 100644
--- a/Solvers/LRBFGSSub.cpp
+++ b/Solvers/LRBFGSSub.cpp
@@ -13,6 +13,9 @@ namespace ROPTLIB{
         if (RHO != nullptr)
             delete[] RHO;
         RHO = new realdp[LengthSY];
+        Currentlength = 0;
+        beginidx = 0;
+        gamma = 1;
         SolversNSMSubLS::Run();
 	};
 
diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index bc83e46..44c50ae 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -85,6 +85,10 @@ namespace ROPTLIB{
 		if (SY != nullptr)
 			delete[] SY;
 		SY = new realdp[LengthSY * LengthSY];
+		Currentlength = 0;
+		beginidx = 0;
+		gamma = 1;
+		isupdated = false;
 		SolversSMTR::Run();
 	};
 
diff --git a/Solvers/Solvers.cpp b/Solvers/Solvers.cpp
index 0c8d7e3..8e22a74 100644
--- a/Solvers/Solvers.cpp
+++ b/Solvers/Solvers.cpp
@@ -34,6 +34,7 @@ namespace ROPTLIB{
 		mexCallMATLAB(0, lhs, 1, rhs, "feval");
 #endif
 		starttime = getTickCount();
+		nf = 0; ng = 0; nV = 0; nVp = 0; nR = 0; nH = 0; lengthSeries = 0; /*counts of this run only*/
 		if (Verbose >= ITERRESULT)
 		{
             timeSeries = Vector(1 + Max_Iteration);
diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 7984c08..d61eeec 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -10,6 +10,7 @@ namespace ROPTLIB{
         Variable xTemp(x1);
         Vector gfTemp = Prob->GetDomain()->GetEMPTY();
 		pre_funs.clear();
+		pre_BBs.clear();
 
 		SolversSM::Run();
 
-- 
2.43.0


From 11da4d90d528b6541ac4e755c950b70bf23d4cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 56/92] fix: an initial step size that is not a number no
 longer makes the line search loop forever

---
 Solvers/SolversSMLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index d61eeec..f969503 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -305,7 +305,7 @@ namespace ROPTLIB{
 			};
 			/*Safeguard for the initial stepsize*/
             stepsize = (stepsize < quadintstepsize / 100) ? quadintstepsize : stepsize;
-			stepsize = (stepsize < std::numeric_limits<realdp>::epsilon()) ? Initstepsize / ngf1 : stepsize;
+			stepsize = !(stepsize >= std::numeric_limits<realdp>::epsilon()) ? Initstepsize / ngf1 : stepsize; /*a step size that is not a number is also replaced*/
 		}
 		stepsize = (stepsize > Maxstepsize) ? Maxstepsize : stepsize;
 	};
-- 
2.43.0


From fec0c4bc9a692b09887d77cccb45d8434f778342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 57/92] fix: LRTRSR1 model step by eigen-decomposition,
 degenerate memory dropped

---
 Solvers/LRTRSR1.cpp | 180 +++++++++++++++++++++-----------------------
 Solvers/LRTRSR1.h   |   2 +-
 2 files changed, 88 insertions(+), 94 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 44c50ae..95a021a 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -127,12 +127,44 @@ namespace ROPTLIB{
             }
         }
         
+        if (k > 0)
+        {/*The pairs in memory do not define an operator if P - gamma Q is numerically singular. In this case, only gamma is kept.*/
+            Vector ScaledPMGQ(PMGQ);
+            realdp *ScaledPMGQptr = ScaledPMGQ.ObtainWritePartialData();
+            for (integer i = 0; i < k; i++)
+                for (integer j = 0; j < k; j++)
+                    ScaledPMGQptr[i + j * k] /= sqrt(SS[i + i * LengthSY] * SS[j + j * LengthSY]);
+            ScaledPMGQ.EigenDecomSym();
+            const realdp *eigptr = ScaledPMGQ.Field("_EigVal").ObtainReadData();
+            realdp mineig = fabs(eigptr[0]), maxeig = fabs(gamma);
+            for (integer i = 0; i < k; i++)
+            {
+                mineig = (mineig < fabs(eigptr[i])) ? mineig : fabs(eigptr[i]);
+                maxeig = (maxeig > fabs(eigptr[i])) ? maxeig : fabs(eigptr[i]);
+            }
+            if (!(mineig > std::numeric_limits<realdp>::epsilon() * 100 * maxeig))
+            {
+                Currentlength = 0;
+                beginidx = 0;
+                gf1.Setiscomplex(gf1iscomplex);
+                tCG_TR();
+                return;
+            }
+        }
+        
+        if (Mani->GetIntrDim() < n && k >= Mani->GetIntrDim())
+        {/*The columns of Psi are linearly dependent since they are in a tangent space. The below decomposition is not used.*/
+            gf1.Setiscomplex(gf1iscomplex);
+            SolversSMTR::tCG_TR();
+            return;
+        }
+
         /* QR decomposion:           Psi = Q RT^T
         eigenvalue decomposition: U D U^T = eig(RT^T * PMGQ^{-1} RT)
         P_parallel = Q * U
         Therefore: Psi * (PMGQ)^{-1} * Psi = Q * U * D * U^T * Q^T = P_parallel * D * P_parallel^T */
         integer m = (k < n) ? k : n; /*dimension of the space spanned by the columns of Psi*/
-        Vector RinvPMGQRT, P_parallel(n, m), D, Psig(k, 1), g_parallel(m, 1);
+        Vector RinvPMGQRT, P_parallel(n, m), D, g_parallel(m, 1);
         if(k > 0)
         {
             Psi.QRDecom();
@@ -142,7 +174,6 @@ namespace ROPTLIB{
             P_parallel.AlphaABaddBetaThis(1, Psi.Field("_Q"), GLOBAL::N, RinvPMGQRT.Field("_EigVec"), GLOBAL::N, 0); /* P_parallel = Psi.Field("_Q") * RinvPMGQRT.Field("_EigVec"); */
             D = RinvPMGQRT.Field("_EigVal");
             Vector gf1reshape(gf1); gf1reshape.Reshape(n);
-            Psig.AlphaABaddBetaThis(1, Psi, GLOBAL::T, gf1reshape, GLOBAL::N, 0); /* Psig = Psi.GetTranspose() * gf1.GetReshape(n); */
             g_parallel.AlphaABaddBetaThis(1, P_parallel, GLOBAL::T, gf1reshape, GLOBAL::N, 0); /* g_parallel = P_parallel.GetTranspose() * gf1.GetReshape(n); */
         }
         
@@ -163,8 +194,10 @@ namespace ROPTLIB{
         for(integer i = 0; i < num; i++)
             if(lambda_min > Lambdaptr[i])
                 lambda_min = Lambdaptr[i];
-        realdp a_kp2sq = Mani->Metric(x1, gf1, gf1) - ((k == 0) ? 0 : g_parallel.DotProduct(g_parallel));
-        realdp a_kp2 = (a_kp2sq < tolLocalNewton) ? 0 : std::sqrt(a_kp2sq);
+        Vector g_perp(gf1); /*the component of gf1 orthogonal to the columns of P_parallel*/
+        if (m > 0)
+            g_perp.AlphaXaddThis(-1, P_parallel * g_parallel);
+        realdp a_kp2 = g_perp.Fnorm();
         
         Vector a_j(num);
         realdp *a_jptr = a_j.ObtainWriteEntireData();
@@ -184,74 +217,52 @@ namespace ROPTLIB{
 
         if (lambda_min > 0 && tmpv <= Delta)
         {
-            if(k == 0)
-                ComputeSBySMW(gamma, Psig, Vector (), PMGQ, Psi);
-            else
-                ComputeSBySMW(gamma, Psig, Psi.Field("_R"), PMGQ, Psi); /*gf1, Psig, YMGS, PMGQ, RT*/
+            ComputeStep(0, P_parallel, Lambda, a_j);
         }
         else
             if (lambda_min <= 0 && PhiBar_fg(-lambda_min, Delta, Lambda, a_j) > 0)
             {
                 sigmaStar = -lambda_min;
-                /*eta2 = - P_parallel * ((Lambda + sigmaStar)^+ g_parallel) - (gf1 - P_parallel * g_parallel) / (gamma + sigmaStar)*/
-                realdp coef = (m < n && fabs(gamma + sigmaStar) > tolLocalNewton) ? static_cast<realdp> (1) / (gamma + sigmaStar) : 0;
-                Vector v(m, 1);
-                realdp *vptr = v.ObtainWriteEntireData();
-                for (integer i = 0; i < m; i++)
-                {
-                    vptr[i] = coef * a_jptr[i];
-                    if (fabs(Lambdaptr[i] + sigmaStar) > tolLocalNewton)
-                        vptr[i] -= a_jptr[i] / (Lambdaptr[i] + sigmaStar);
-                }
-                eta2 = gf1;
-                if (m > 0)
-                    eta2.AlphaABaddBetaThis(1, P_parallel, GLOBAL::N, v, GLOBAL::N, -coef);
-                else
-                    eta2.ScalarTimesThis(-coef);
+                ComputeStep(sigmaStar, P_parallel, Lambda, a_j);
 
                 if (lambda_min < 0)
                 {
                     /*move along an eigenvector of the smallest eigenvalue to the boundary of the trust region*/
-                    realdp alpha = sqrt(Delta * Delta - eta2.DotProduct(eta2));
-                    Vector zstar(n, 1);
-                    realdp *zstarptr = zstar.ObtainWriteEntireData();
+                    realdp alphasq = Delta * Delta - eta2.DotProduct(eta2);
+                    realdp alpha = (alphasq > 0) ? sqrt(alphasq) : 0;
                     const realdp *P_parallelptr = P_parallel.ObtainReadData();
-                    if (m > 0 && fabs(lambda_min - Lambdaptr[0]) < tolLocalNewton)
+                    bool inP = (m > 0 && fabs(lambda_min - Lambdaptr[0]) < tolLocalNewton);
+                    Vector zstar(gf1);
+                    realdp normz = 0;
+                    /*If the eigenvector is not in P_parallel, then use the first e_i, whose component in the orthogonal complement is not small.*/
+                    for (integer idx = 0; idx < n && normz < 0.5 / std::sqrt(static_cast<realdp> (n)); idx++)
                     {
-                        for (integer j = 0; j < n; j++)
-                            zstarptr[j] = P_parallelptr[j];
-                    }
-                    else
-                    {/*a vector orthogonal to the columns of P_parallel: the largest one of (I - P_parallel * P_parallel^T) e_i*/
-                        integer idxmax = 0;
-                        realdp normsqmax = -1;
+                        realdp *zstarptr = zstar.ObtainWriteEntireData();
                         for (integer i = 0; i < n; i++)
                         {
-                            realdp normsq = 1;
-                            for (integer j = 0; j < m; j++)
-                                normsq -= P_parallelptr[i + j * n] * P_parallelptr[i + j * n];
-                            if (normsq > normsqmax)
+                            if (inP)
                             {
-                                normsqmax = normsq;
-                                idxmax = i;
+                                zstarptr[i] = P_parallelptr[i];
+                                continue;
                             }
-                        }
-                        for (integer i = 0; i < n; i++)
-                        {
-                            zstarptr[i] = (i == idxmax) ? 1 : 0;
+                            zstarptr[i] = (i == idx) ? 1 : 0;
                             for (integer j = 0; j < m; j++)
-                                zstarptr[i] -= P_parallelptr[i + j * n] * P_parallelptr[idxmax + j * n];
+                                zstarptr[i] -= P_parallelptr[i + j * n] * P_parallelptr[idx + j * n];
                         }
+                        zstar.Setiscomplex(gf1iscomplex);
+                        Mani->Projection(x1, zstar, &zstar);
+                        zstar.Setiscomplex(false);
+                        normz = zstar.Fnorm();
                     }
-                    eta2.AlphaXaddThis(alpha / zstar.Fnorm(), zstar);
+                    eta2.AlphaXaddThis(alpha / normz, zstar);
+                    tCGstatusSM = TRSM_NEGCURVTURE;
                 }
-                tCGstatusSM = TRSM_NEGCURVTURE;
             }
             else
             {
                 if (lambda_min > 0)
                 {
-                    sigmaStar = LocalNewton(0, 10, tolLocalNewton, Lambda, a_j);
+                    sigmaStar = LocalNewton(0, 100, tolLocalNewton, Lambda, a_j);
                 }
                 else
                 {
@@ -262,59 +273,42 @@ namespace ROPTLIB{
                             sigmaHat = a_jptr[i] / Delta - Lambdaptr[i];
                     }
                     if (sigmaHat > -lambda_min)
-                        sigmaStar = LocalNewton(sigmaHat, 10, tolLocalNewton, Lambda, a_j);
+                        sigmaStar = LocalNewton(sigmaHat, 100, tolLocalNewton, Lambda, a_j);
                     else
-                        sigmaStar = LocalNewton(-lambda_min, 10, tolLocalNewton, Lambda, a_j);
+                        sigmaStar = LocalNewton(-lambda_min, 100, tolLocalNewton, Lambda, a_j);
                 }
-                if(k == 0)
-                    ComputeSBySMW(gamma + sigmaStar, Psig, Vector (), PMGQ, Psi);
-                else
-                    ComputeSBySMW(gamma + sigmaStar, Psig, Psi.Field("_R"), PMGQ, Psi); /*gf1, Psig, YMGS, PMGQ, RT*/
+                ComputeStep(sigmaStar, P_parallel, Lambda, a_j);
                 tCGstatusSM = TRSM_EXCREGION;
             }
-        Mani->Projection(x1, eta2, &eta2);
+        /*the Newton iterates approach the root from the outside of the trust region*/
+        realdp normeta2 = eta2.Fnorm();
+        if (normeta2 > Delta)
+            eta2.ScalarTimesThis(Delta / normeta2);
         /*recover the types of data*/
         gf1.Setiscomplex(gf1iscomplex);
         eta2.Setiscomplex(gf1iscomplex);
+        Mani->Projection(x1, eta2, &eta2);
     };
 
-	void LRTRSR1::ComputeSBySMW(realdp tauStar, const Vector &Psig, const Vector &R, const Vector &PMGQ, const Vector &Psi)
-	{/*gamma, gf1, Psig, YMGS, PMGQ, R*/
-		if (Currentlength != 0)
-		{
-            realdp eps = 100 * std::numeric_limits<realdp>::epsilon();
-            Vector vw(PMGQ);
-            vw.AlphaABaddBetaThis(tauStar, R, GLOBAL::T, R, GLOBAL::N, tauStar * tauStar);/*Vector vw = tauStar * (tauStar * PMGQ + (R.GetTranspose() * R));*/
-            
-            /*if vw is a rank deficient matrix, then eta2 = (static_cast<realdp> (-1) / tauStar) * gf1; */
-            vw.HHRDecom();
-            const realdp *HHRptr = vw.Field("_HHR").ObtainReadData();
-            realdp minv = std::abs(HHRptr[0]), maxv = std::abs(HHRptr[0]);
-            for(integer i = 0; i < vw.Getrow(); i++)
-            {
-                if(minv > std::abs(HHRptr[i + vw.Getrow() * i]))
-                    minv = std::abs(HHRptr[i + vw.Getrow() * i]);
-                if(maxv < std::abs(HHRptr[i + vw.Getrow() * i]))
-                    maxv = std::abs(HHRptr[i + vw.Getrow() * i]);
-            }
-            
-            if(minv / maxv < eps || maxv == static_cast<realdp> (0)) /*rank deficient*/
-            {
-                eta2 = gf1; eta2.ScalarTimesThis(static_cast<realdp> (-1) / tauStar); /* eta2 = (static_cast<realdp> (-1) / tauStar) * gf1; */
-                return;
-            }
-
-            /*otherwise, use below eta2*/
-            /* eta2 = Psi * (vw % Psig) + (static_cast<realdp> (-1) / tauStar) * gf1; */
-            Vector tmp = vw % Psig;
-            eta2 = gf1;
-            eta2.AlphaABaddBetaThis(1, Psi, GLOBAL::N, tmp, GLOBAL::N, static_cast<realdp> (-1) / tauStar);
-            
-			return;
-		}
-        /*eta2 = gf1 * (static_cast<realdp> (-1) / tauStar);*/
-        eta2 = gf1;
-        eta2.ScalarTimesThis(static_cast<realdp> (-1) / tauStar);
+	void LRTRSR1::ComputeStep(realdp sigma, const Vector &P_parallel, const Vector &Lambda, const Vector &a_j)
+	{/*eta2 = - P_parallel * ((Lambda + sigma)^+ * (P_parallel^T gf1)) - (gf1 - P_parallel * P_parallel^T gf1) / (gamma + sigma)*/
+        integer m = P_parallel.Getcol(), n = P_parallel.Getrow();
+        const realdp *Lambdaptr = Lambda.ObtainReadData();
+        const realdp *a_jptr = a_j.ObtainReadData();
+        realdp tol = std::numeric_limits<realdp>::epsilon() * 100, coef = 0;
+        Vector v(m, 1);
+        realdp *vptr = v.ObtainWriteEntireData();
+        if (m < n && fabs(Lambdaptr[m] + sigma) > tol * (fabs(Lambdaptr[m]) + fabs(sigma)))
+            coef = static_cast<realdp> (1) / (Lambdaptr[m] + sigma);
+        for (integer i = 0; i < m; i++)
+        {
+            vptr[i] = coef * a_jptr[i];
+            if (fabs(Lambdaptr[i] + sigma) > tol * (fabs(Lambdaptr[i]) + fabs(sigma)))
+                vptr[i] -= a_jptr[i] / (Lambdaptr[i] + sigma);
+        }
+        eta2 = gf1; eta2.ScalarTimesThis(-coef);
+        if (m > 0)
+            eta2.AlphaXaddThis(1, P_parallel * v);
 	};
 
 	realdp LRTRSR1::PhiBar_fg(realdp nlambda_min, realdp Delta, const Vector &Lambda, const Vector &a_j, realdp *gf)
@@ -422,7 +416,7 @@ namespace ROPTLIB{
 		integer k = 0;
 		realdp gf = 0;
 		realdp fv = PhiBar_fg(x0, Delta, Lambda, a_j, &gf);
-		while (fabs(fv) > std::numeric_limits<realdp>::epsilon() && k < maxIter)
+		while (fabs(fv) > std::numeric_limits<realdp>::epsilon() && gf > 0 && k < maxIter)
 		{
 			x0 -= fv / gf;
 			fv = PhiBar_fg(x0, Delta, Lambda, a_j, &gf);
diff --git a/Solvers/LRTRSR1.h b/Solvers/LRTRSR1.h
index 67a5f6c..672bef7 100644
--- a/Solvers/LRTRSR1.h
+++ b/Solvers/LRTRSR1.h
@@ -87,7 +87,7 @@ namespace ROPTLIB{
         /*Update the Hessian approximation for LRTRSR1 if necessary*/
         virtual void UpdateDataLRTRSR1(void);
 
-		void ComputeSBySMW(realdp tauStar, const Vector &Psig, const Vector &R, const Vector &PMGQ, const Vector &Psi);
+		void ComputeStep(realdp sigma, const Vector &P_parallel, const Vector &Lambda, const Vector &a_j);
         
         realdp PhiBar_fg(realdp nlambda_min, realdp Delta, const Vector &Lambda, const Vector &a_j, realdp *gf);
         
-- 
2.43.0


From 2eea7f2d87c2a45aff0551e2496b55e569df2fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 58/92] fix: LRTRSR1 starts its local Newton iteration from a
 lower bound for either sign of the components

---
 Solvers/LRTRSR1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 95a021a..05b89f5 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -269,8 +269,8 @@ namespace ROPTLIB{
                     realdp sigmaHat = 0;
                     for (integer i = 0; i < num; i++)
                     {
-                        if (sigmaHat < a_jptr[i] / Delta - Lambdaptr[i])
-                            sigmaHat = a_jptr[i] / Delta - Lambdaptr[i];
+                        if (sigmaHat < fabs(a_jptr[i]) / Delta - Lambdaptr[i])
+                            sigmaHat = fabs(a_jptr[i]) / Delta - Lambdaptr[i];
                     }
                     if (sigmaHat > -lambda_min)
                         sigmaStar = LocalNewton(sigmaHat, 100, tolLocalNewton, Lambda, a_j);
-- 
2.43.0


From d41f35a68d0db9f49af76ec67a6da57ec1944c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:02 +0000
Subject: [PATCH 59/92] fix: exact line search rejects a step whose cost is
 larger than that of the current iterate

---
 Solvers/SolversSMLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index f969503..c85755d 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -434,7 +434,7 @@ namespace ROPTLIB{
 				if (t * LS_ratio < minstep)
 				{
 					sgf2 = dh();
-					if (fabs(sgf2 / initialslope) > 1e-1 && sf2 > f1 + LS_alpha * stepsize * ngf1)
+					if (sf2 > f1 + LS_alpha * stepsize * ngf1) /* the cost is larger than that of the current iterate */
 						LSstatus = LSSM_NONEXACT;
 					break;
 				}
-- 
2.43.0


From 812c76cd48014c24c2aedd4961997e31b4e19800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 60/92] fix: Wolfe line search does not accept the doubled step
 when it equals the rejected first trial

---
 Solvers/SolversSMLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index c85755d..70a7741 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -744,7 +744,7 @@ namespace ROPTLIB{
 						LSstatus = LSSM_MAXSTEPSIZE;
 						return;
 					}
-					if (stepsize != initiallength && f2 > f1 + LS_alpha * stepsize * initialslope)
+					if (f2 > f1 + LS_alpha * stepsize * initialslope)
 					{
 						stepsizelo = (stepsize < prestepsize) ? stepsize : prestepsize;
 						stepsizediff = fabs(prestepsize - stepsize);
-- 
2.43.0


From 703f3a7cf09ee7c1b5b1420b65ba460e13e5f100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 61/92] fix: LRTRSR1 shift of the local model never falls below
 the smallest admissible value

---
 Solvers/LRTRSR1.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 05b89f5..fb73859 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -277,6 +277,9 @@ namespace ROPTLIB{
                     else
                         sigmaStar = LocalNewton(-lambda_min, 100, tolLocalNewton, Lambda, a_j);
                 }
+                /*the shifted model must be positive semidefinite*/
+                realdp sigmaMin = (lambda_min > 0) ? 0 : -lambda_min;
+                sigmaStar = (sigmaStar > sigmaMin) ? sigmaStar : sigmaMin;
                 ComputeStep(sigmaStar, P_parallel, Lambda, a_j);
                 tCGstatusSM = TRSM_EXCREGION;
             }
-- 
2.43.0


From dd679b6922933cb95325fd080536e340005e5071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:18 +0000
Subject: [PATCH 62/92] fix: CheckParams indexed its name tables with the
 invalid values it reports

---
 Solvers/RCG.cpp            | 2 +-
 Solvers/Solvers.cpp        | 2 +-
 Solvers/SolversNSM.cpp     | 2 +-
 Solvers/SolversNSMPGLS.cpp | 2 +-
 Solvers/SolversSM.cpp      | 2 +-
 Solvers/SolversSMLS.cpp    | 4 ++--
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/Solvers/RCG.cpp b/Solvers/RCG.cpp
index 23f3b9e..8432aca 100644
--- a/Solvers/RCG.cpp
+++ b/Solvers/RCG.cpp
@@ -48,7 +48,7 @@ namespace ROPTLIB{
 
 		printf("RCG METHOD PARAMETERS:\n");
 		status = (RCGmethod >= 0 && RCGmethod < RCGMETHODSLENGTH) ? YES : NO;
-		printf("RCGmethod     :%15s[%s]\n", RCGmethodSetnames[RCGmethod].c_str(), status);
+		printf("RCGmethod     :%15s[%s]\n", (status == YES) ? RCGmethodSetnames[RCGmethod].c_str() : "UNKNOWN", status);
 	};
 
 	void RCG::PrintInfo(void)
diff --git a/Solvers/Solvers.cpp b/Solvers/Solvers.cpp
index 8e22a74..341ae67 100644
--- a/Solvers/Solvers.cpp
+++ b/Solvers/Solvers.cpp
@@ -23,7 +23,7 @@ namespace ROPTLIB{
 		status = (Min_Iteration >= 0 && Min_Iteration <= Max_Iteration) ? YES : NO;
 		printf("Min_Iteration :%15d[%s],\t", Min_Iteration, status);
         status = (Verbose >= 0 && Verbose < VERBOSELENGTH) ? YES : NO;
-        printf("Verbose       :%15s[%s],\n", VERBOSEnames[Verbose].c_str(), status);
+        printf("Verbose       :%15s[%s],\n", (status == YES) ? VERBOSEnames[Verbose].c_str() : "UNKNOWN", status);
 	};
 
 	void Solvers::Run(void)
diff --git a/Solvers/SolversNSM.cpp b/Solvers/SolversNSM.cpp
index 97e751b..f22d149 100644
--- a/Solvers/SolversNSM.cpp
+++ b/Solvers/SolversNSM.cpp
@@ -23,7 +23,7 @@ namespace ROPTLIB{
         char *status;
         printf("NONSMOOTH OPTIMIZATION PARAMETERS:\n");
         status = (Stop_Criterion >= 0 && Stop_Criterion < STOPCRITNNSMLENGTH) ? YES : NO;
-        printf("Stop_Criterion:%15s[%s],\n", STOPCRITnames[Stop_Criterion].c_str(), status);
+        printf("Stop_Criterion:%15s[%s],\n", (status == YES) ? STOPCRITnames[Stop_Criterion].c_str() : "UNKNOWN", status);
     };
 
     void SolversNSM::SetDefaultParams(void)
diff --git a/Solvers/SolversNSMPGLS.cpp b/Solvers/SolversNSMPGLS.cpp
index cf6e767..78e4ce1 100644
--- a/Solvers/SolversNSMPGLS.cpp
+++ b/Solvers/SolversNSMPGLS.cpp
@@ -50,7 +50,7 @@ namespace ROPTLIB{
 
         printf("RPG LINESEARCH-BASED METHODS PARAMETERS:\n");
         status = (Variant >= 0 && Variant < RPGVARIANTLENGTH) ? YES : NO;
-        printf("RPGVariant    :%15s[%s],\t", RPGVariantnames[Variant].c_str(), status);
+        printf("RPGVariant    :%15s[%s],\t", (status == YES) ? RPGVariantnames[Variant].c_str() : "UNKNOWN", status);
         status = (Minstepsize > 0 && Minstepsize <= 1) ? YES : NO;
         printf("Minstepsize   :%15g[%s],\n", Minstepsize, status);
         status = (LS_ratio > 0 && LS_ratio < 1) ? YES : NO;
diff --git a/Solvers/SolversSM.cpp b/Solvers/SolversSM.cpp
index c92ca25..91c1c9f 100644
--- a/Solvers/SolversSM.cpp
+++ b/Solvers/SolversSM.cpp
@@ -81,7 +81,7 @@ namespace ROPTLIB{
 		char *status;
 		printf("SMOOTH OPTIMIZATION PARAMETERS:\n");
 		status = (Stop_Criterion >= 0 && Stop_Criterion < STOPCRITSMLENGTH) ? YES : NO;
-		printf("Stop_Criterion:%15s[%s],\t", STOPCRITnames[Stop_Criterion].c_str(), status);
+		printf("Stop_Criterion:%15s[%s],\t", (status == YES) ? STOPCRITnames[Stop_Criterion].c_str() : "UNKNOWN", status);
 		status = (Accuracy >= 0 && Accuracy <= 1) ? YES : NO;
 		printf("Accuracy      :%15g[%s],\n", Accuracy, status);
 	};
diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 70a7741..f9fb0b5 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -604,9 +604,9 @@ namespace ROPTLIB{
 
 		printf("LINE SEARCH TYPE METHODS PARAMETERS:\n");
 		status = (LineSearch_LS >= 0 && LineSearch_LS < LSALGOSMLENGTH) ? YES : NO;
-		printf("LineSearch_LS :%15s[%s],\t", LSALGOnames[LineSearch_LS].c_str(), status);
+		printf("LineSearch_LS :%15s[%s],\t", (status == YES) ? LSALGOnames[LineSearch_LS].c_str() : "UNKNOWN", status);
         status = (InitSteptype >= 0 && InitSteptype < INITSTEPSIZESETSMLENGTH) ? YES : NO;
-        printf("InitSteptype  :%15s[%s],\n", INITSTEPnames[InitSteptype].c_str(), status);
+        printf("InitSteptype  :%15s[%s],\n", (status == YES) ? INITSTEPnames[InitSteptype].c_str() : "UNKNOWN", status);
 		status = (LS_alpha > 0 && LS_alpha < 0.5) ? YES : NO;
 		printf("LS_alpha      :%15g[%s],\t", LS_alpha, status);
         status = (LS_beta > LS_alpha && LS_beta < 1) ? YES : NO;
-- 
2.43.0


From 605e1051c72e3dd60d39d684e01f79dc887238f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:42 +0000
Subject: [PATCH 63/92] fix: LRTRSR1::SetParams was not accessible, unlike that
 of every other solver

---
 Solvers/LRTRSR1.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Solvers/LRTRSR1.h b/Solvers/LRTRSR1.h
index 672bef7..9dafffc 100644
--- a/Solvers/LRTRSR1.h
+++ b/Solvers/LRTRSR1.h
@@ -46,6 +46,10 @@ namespace ROPTLIB{
         Otherwise, we only discard the oldest one and add a new one, therefore the number of pairs of (s_k, y_k) is nondecreasing.*/
         bool LMrestart;
                 
+        /*PARAMSMAP is defined in "def.h" and it is a map from string to realdp, i.e., std::map<std::string, realdp> .
+        This function is used to set the parameters by the mapping*/
+        virtual void SetParams(PARAMSMAP params);
+
 	protected:
         /*Call Solvers::SetProbX function and set up the temporary objects for LRTRSR1 algorithm.
         INPUT:    prob is the problem which defines the cost function, gradient and possible the action of Hessian
@@ -56,10 +60,6 @@ namespace ROPTLIB{
         /*Setting parameters (member variables) to be default values */
         virtual void SetDefaultParams(void);
         
-        /*PARAMSMAP is defined in "def.h" and it is a map from string to realdp, i.e., std::map<std::string, realdp> .
-        This function is used to set the parameters by the mapping*/
-        virtual void SetParams(PARAMSMAP params);
-
         /*Computes the solution to a trust-region subproblem when the quadratic model is defined by
         limited-memory symmetric rank-one (L-SR1) quasi-Newton matrix. The details can be found in [JJR17]
         [JJR17]: On solving L-SR1 trust-region subproblems */
-- 
2.43.0


From 22119ccf78d6bcb460b674653d663e9deafaf9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 64/92] fix: Wolfe line search never returned when the step
 size was not a number

---
 Solvers/SolversSMLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index f9fb0b5..c73ea6c 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -797,7 +797,7 @@ namespace ROPTLIB{
 				LSstatus = LSSM_SUCCESS;
 				return;
 			}
-			if (stepsize <= Minstepsize)
+			if (!(stepsize > Minstepsize)) /*also if the step size is not a number*/
 			{
 				stepsize = Minstepsize;
 				f2 = h();
-- 
2.43.0


From 7f5bb4720ca8f3bfa90b53ab6d8bf0e398ba573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:29 +0000
Subject: [PATCH 65/92] fix: interpolation in the zoom phase ignored its bounds
 when the interval lies to the left

---
 Solvers/SolversSMLS.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index c73ea6c..bb37401 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -543,8 +543,9 @@ namespace ROPTLIB{
 		{
 			xdiff = (xhi - xlo);
 			xincr = -xloslope * xdiff * xdiff / 2 / (fxhi - (fxlo + xloslope * xdiff));
-            xincr = (xincr < xdiff * LS_ratio1) ? xdiff * LS_ratio1 : xincr;
-            xincr = (xincr < xdiff * LS_ratio2) ? xincr : xdiff * LS_ratio2;
+            /*xdiff and xincr are negative if the interval is to the left of xlo*/
+            xincr = (fabs(xincr) < fabs(xdiff) * LS_ratio1 || xincr * xdiff < 0) ? xdiff * LS_ratio1 : xincr;
+            xincr = (fabs(xincr) < fabs(xdiff) * LS_ratio2) ? xincr : xdiff * LS_ratio2;
 			stepsize = xlo + xincr;
 			times++;
 			if (times >= 10)
-- 
2.43.0


From 58d7e07456d0337febf950b2c1f0d0abb24d5b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 66/92] fix: same-direction differentiated retraction of a zero
 direction was not a number (Stiefel, CStiefel)

---
 Manifolds/CStiefel.cpp | 3 ++-
 Manifolds/Stiefel.cpp  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index e41592a..cc5004d 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -555,7 +555,8 @@ namespace ROPTLIB{
             else
                 etaxtmp = etax;
 			realdp nxix = std::sqrt(Metric(x, xix, xix)); /*xix and result may be the same*/
-			realdp alpha = sqrt(Metric(x, xix, xix) / Metric(x, etax, etax));
+			realdp netaxsq = Metric(x, etax, etax);
+			realdp alpha = (netaxsq > 0) ? sqrt(Metric(x, xix, xix) / netaxsq) : 0;
             Vector Vt = y.Field("_Vt");
             Vector S = y.Field("_S");
             Vector tmp(EMPTYEXTR);
diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index c870c67..87004ee 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -609,7 +609,8 @@ namespace ROPTLIB{
             else
                 etaxtmp = etax;
 			realdp nxix = std::sqrt(Metric(x, xix, xix)); /*xix and result may be the same*/
-			realdp alpha = sqrt(Metric(x, xix, xix) / Metric(x, etax, etax));
+			realdp netaxsq = Metric(x, etax, etax);
+			realdp alpha = (netaxsq > 0) ? sqrt(Metric(x, xix, xix) / netaxsq) : 0;
             Vector Vt = y.Field("_Vt");
             Vector S = y.Field("_S");
             Vector tmp(EMPTYEXTR);
@@ -861,7 +862,8 @@ namespace ROPTLIB{
             else
                 *result = exresult;
             
-			ScalarTimesVector(y, sqrt(nxixsq / Metric(x, etax, etax)), *result, result);
+			realdp netaxsq = Metric(x, etax, etax);
+			ScalarTimesVector(y, (netaxsq > 0) ? sqrt(nxixsq / netaxsq) : 0, *result, result);
 
             if (IsEtaXiSameDir && HasHHR)
             {
-- 
2.43.0


From 1ea84ca7d225e77190d25a70426902d84c5b70c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 67/92] fix: SolversNSMPGLS::SetParams truncated its
 real-valued parameters to integers

---
 Solvers/SolversNSMPGLS.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Solvers/SolversNSMPGLS.cpp b/Solvers/SolversNSMPGLS.cpp
index 78e4ce1..f2556e4 100644
--- a/Solvers/SolversNSMPGLS.cpp
+++ b/Solvers/SolversNSMPGLS.cpp
@@ -115,17 +115,17 @@ namespace ROPTLIB{
             else
             if (iter->first == static_cast<std::string> ("LS_ratio"))
             {
-                LS_ratio = static_cast<integer> (iter->second);
+                LS_ratio = static_cast<realdp> (iter->second);
             }
             else
             if (iter->first == static_cast<std::string> ("LS_alpha"))
             {
-                LS_alpha = static_cast<integer> (iter->second);
+                LS_alpha = static_cast<realdp> (iter->second);
             }
             else
             if (iter->first == static_cast<std::string> ("Minstepsize"))
             {
-                Minstepsize = static_cast<integer> (iter->second);
+                Minstepsize = static_cast<realdp> (iter->second);
             }
         }
     };
-- 
2.43.0


From ec82dc8a68c8990532c051513c3d13180feb860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:01 +0000
Subject: [PATCH 68/92] fix: SphereConvexHull accepts tangent vectors of any
 shape, not only column vectors

---
 Problems/SphereConvexHull.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Problems/SphereConvexHull.cpp b/Problems/SphereConvexHull.cpp
index 9891061..8d99e4b 100644
--- a/Problems/SphereConvexHull.cpp
+++ b/Problems/SphereConvexHull.cpp
@@ -24,7 +24,7 @@ namespace ROPTLIB{
         Vector xsq = x.GetHadamardProduct(x);
         const realdp *xsqPtr = xsq.ObtainReadData();
         
-        Vector Wxsq(W[0].Getrow()), PWxsq(W[0].Getrow());
+        Vector Wxsq(W[0]), PWxsq(W[0]);
         Wxsq.SetToZeros();
         for(integer i = 0; i < lengthW; i++)
         {
@@ -68,7 +68,7 @@ namespace ROPTLIB{
         }
         Vector xeta = x.GetHadamardProduct(etax);
         const realdp *xetaptr = xeta.ObtainReadData();
-        Vector Wxeta(W[0].Getrow()), PWxeta(W[0].Getrow());
+        Vector Wxeta(W[0]), PWxeta(W[0]);
         Wxeta.SetToZeros();
         for(integer i = 0; i < lengthW; i++)
         {
-- 
2.43.0


From 7ac13339c761c84bfe6ae58c4509ed652f2fe50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:11 +0000
Subject: [PATCH 69/92] fix: the minimum-norm element of a convex hull of
 tangent vectors uses the metric of the manifold

---
 Others/MinPNormConHull.cpp    |  2 +-
 Problems/SphereConvexHull.cpp | 16 +++++++++++-----
 Problems/SphereConvexHull.h   |  9 +++++++--
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/Others/MinPNormConHull.cpp b/Others/MinPNormConHull.cpp
index f4da4bd..d4835a4 100644
--- a/Others/MinPNormConHull.cpp
+++ b/Others/MinPNormConHull.cpp
@@ -18,7 +18,7 @@ namespace ROPTLIB{
 
 	realdp MinPNormConHullRMethod(const Manifold *Mani, Variable x, Vector *Ys, integer LYs, SolversNSMSub *solver, Vector &(SolversNSMSub::*Hv)(const Vector &v, Vector *result), Vector &outSoln)
 	{
-		SphereConvexHull subprob(Mani, Ys, LYs, solver, Hv);
+		SphereConvexHull subprob(Mani, Ys, LYs, solver, Hv, &x);
 		Sphere Domain(LYs);
 		subprob.SetDomain(&Domain);
         Variable InitX = Domain.RandominManifold();
diff --git a/Problems/SphereConvexHull.cpp b/Problems/SphereConvexHull.cpp
index 8d99e4b..0aa766b 100644
--- a/Problems/SphereConvexHull.cpp
+++ b/Problems/SphereConvexHull.cpp
@@ -4,13 +4,14 @@
 /*Define the namespace*/
 namespace ROPTLIB{
 
-	SphereConvexHull::SphereConvexHull(const Manifold *inMani, Vector *inW, integer inlengthW, SolversNSMSub *insolver, Vector &(SolversNSMSub::*inHv)(const Vector &v, Vector *result))
+	SphereConvexHull::SphereConvexHull(const Manifold *inMani, Vector *inW, integer inlengthW, SolversNSMSub *insolver, Vector &(SolversNSMSub::*inHv)(const Vector &v, Vector *result), const Variable *inxW)
 	{
 		Mani = inMani;
 		W = inW;
 		lengthW = inlengthW;
 		solver = insolver;
 		Hv = inHv;
+		xW = inxW;
         
         NumGradHess = false;
 	};
@@ -19,6 +20,11 @@ namespace ROPTLIB{
 	{
 	};
 
+	realdp SphereConvexHull::InnerProduct(const Vector &v1, const Vector &v2) const
+	{
+		return (xW == nullptr) ? v1.DotProduct(v2) : Mani->Metric(*xW, v1, v2);
+	};
+
 	realdp SphereConvexHull::f(const Variable &x) const
 	{
         Vector xsq = x.GetHadamardProduct(x);
@@ -41,7 +47,7 @@ namespace ROPTLIB{
         x.AddToFields("Wxsq", Wxsq);
         x.AddToFields("PWxsq", PWxsq);
         
-        return Wxsq.DotProduct(PWxsq);
+        return InnerProduct(Wxsq, PWxsq);
 	};
 
 	Vector &SphereConvexHull::EucGrad(const Variable &x, Vector *result) const
@@ -52,7 +58,7 @@ namespace ROPTLIB{
         const realdp *xptr = x.ObtainReadData();
         for(integer i = 0; i < result->Getlength(); i++)
         {
-            resultptr[i] = 4 * xptr[i] * W[i].DotProduct(PWxsq);
+            resultptr[i] = 4 * xptr[i] * InnerProduct(W[i], PWxsq);
         }
         return *result;
 	};
@@ -64,7 +70,7 @@ namespace ROPTLIB{
         const realdp *etaxptr = etax.ObtainReadData();
         for(integer i = 0; i < result->Getlength(); i++)
         {
-            resultptr[i] = 4 * etaxptr[i] * W[i].DotProduct(PWxsq);
+            resultptr[i] = 4 * etaxptr[i] * InnerProduct(W[i], PWxsq);
         }
         Vector xeta = x.GetHadamardProduct(etax);
         const realdp *xetaptr = xeta.ObtainReadData();
@@ -86,7 +92,7 @@ namespace ROPTLIB{
         const realdp *xptr = x.ObtainReadData();
         for(integer i = 0; i < result->Getlength(); i++)
         {
-            resultptr[i] += 8 * xptr[i] * W[i].DotProduct(PWxeta);
+            resultptr[i] += 8 * xptr[i] * InnerProduct(W[i], PWxeta);
         }
         
         return *result;
diff --git a/Problems/SphereConvexHull.h b/Problems/SphereConvexHull.h
index 032ed54..0c481c6 100644
--- a/Problems/SphereConvexHull.h
+++ b/Problems/SphereConvexHull.h
@@ -26,8 +26,9 @@ namespace ROPTLIB{
 	class SphereConvexHull : public Problem{
 	public:
 		/*W is an array of vectors, which are tangent vectors in the tangent space at x, lengthW is the length of W.
-		HvRBFGSSub defines a linear mapping: P: v --> Pv. The manifold, Mani, of x and W is not necessary the same as the domain of this problem.*/
-		SphereConvexHull(const Manifold *Mani, Vector *W, integer lengthW, SolversNSMSub *solver, Vector &(SolversNSMSub::*Hv)(const Vector &v, Vector *result));
+		HvRBFGSSub defines a linear mapping: P: v --> Pv. The manifold, Mani, of x and W is not necessary the same as the domain of this problem.
+		If xW, the point x, is given, then the norm is the one of the metric of Mani at x; otherwise it is the 2-norm.*/
+		SphereConvexHull(const Manifold *Mani, Vector *W, integer lengthW, SolversNSMSub *solver, Vector &(SolversNSMSub::*Hv)(const Vector &v, Vector *result), const Variable *xW = nullptr);
 		virtual ~SphereConvexHull();
 		virtual realdp f(const Variable &x) const;
 
@@ -39,6 +40,10 @@ namespace ROPTLIB{
 		integer lengthW;
 		SolversNSMSub *solver;
         Vector &(SolversNSMSub::*Hv)(const Vector &v, Vector *result);
+		const Variable *xW;
+
+	private:
+		realdp InnerProduct(const Vector &v1, const Vector &v2) const;
 	};
 
 }; /*end of ROPTLIB namespace*/
-- 
2.43.0


From d9d8d7c83756a54a19f0d707e4e5660814e25c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:07 +0000
Subject: [PATCH 70/92] fix: subgradient solvers set the reported measure when
 the minimum-norm element is small

---
 Solvers/SolversNSMSubLS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 808097d..72fe266 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -251,6 +251,7 @@ namespace ROPTLIB{
 			}
 			if (nminPv <= Del)
 			{
+				ndir1 = nminPv;
 				return;
 			}
             /*end the stopping criterion*/
-- 
2.43.0


From 516772e220d8174cef95dbfbfda0b206e56cc650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:15 +0000
Subject: [PATCH 71/92] fix: subgradient solvers no longer reduce their
 tolerances forever without taking a step

---
 Solvers/SolversNSMSubLS.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 72fe266..66df9fb 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -45,8 +45,10 @@ namespace ROPTLIB{
 			/*Call the function to check whether the stopping criterion is satisfied or not.
 			The default function is written in Solvers.h and Solvers.cpp*/
 			isstop = IsStopped();
-			if (fabs(ndir1) <= Del || fabs(ndir1) <= Tolerance)
+			if (fabs(ndir1) <= Del || (fabs(ndir1) <= Tolerance && Eps > Min_Eps))
 			{
+				if (ndir1 == 0 && Eps <= Min_Eps) /*no direction is left*/
+					break;
 				Eps *= Theta_eps;
 				Eps = (Eps > Min_Eps) ? Eps : Min_Eps;
 				if (Eps > Min_Eps)
@@ -55,7 +57,7 @@ namespace ROPTLIB{
 				}
 				else
 				{
-					while (fabs(ndir1) < Del)
+					while (fabs(ndir1) <= Del && Del > 0)
 					{
 						Del *= Theta_del;
 					}
-- 
2.43.0


From 107132d27e691c5867202601d7c9aa222b6510de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:22 +0000
Subject: [PATCH 72/92] fix: stopping criteria of subgradient solvers see the
 iterates, not trial points

---
 Solvers/SolversNSMSubLS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 66df9fb..d7484a5 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -40,10 +40,12 @@ namespace ROPTLIB{
 		/*Start the loop*/
 		while ( iter < Max_Iteration && ((!isstop) || iter < Min_Iteration || Eps > Min_Eps) && (LSstatus == LSNSM_SUCCESS || LSstatus == LSNSM_MAXSTEPSIZE) )
 		{
+			realdp fpre = f2; /*cost at the previous iterate*/
 			GetSearchDir(); /* Obtain search direction eta1, the minimum length vector minPv, and ndir1 = \|minPv\|_P */
 
 			/*Call the function to check whether the stopping criterion is satisfied or not.
 			The default function is written in Solvers.h and Solvers.cpp*/
+			f2 = fpre; x2 = x1; /*f2 and x2 have been used for trial points in GetSearchDir*/
 			isstop = IsStopped();
 			if (fabs(ndir1) <= Del || (fabs(ndir1) <= Tolerance && Eps > Min_Eps))
 			{
-- 
2.43.0


From 9d044b05d3e7f40f027501e728e61359e74af99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:31 +0000
Subject: [PATCH 73/92] fix: subgradient solvers stay at the iterate when a
 line search fails without decrease

---
 Solvers/SolversNSMSubLS.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index d7484a5..8314856 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -85,6 +85,9 @@ namespace ROPTLIB{
                 printf("Linesearch fails! LSstatus:%s\n", LSstatusSetnames[LSstatus].c_str());
             }
 
+			if (!(LSstatus == LSNSM_SUCCESS || LSstatus == LSNSM_MAXSTEPSIZE) && !(f2 <= f1)) /*Stay at the current iterate if the failed line search has not found any decrease*/
+				break;
+
 			iter++;
 
 			/*Update some data, such as Hessian approximation in quasi-Newton methods, etc*/
-- 
2.43.0


From bf0f3a9a6e3afda2febc0dec5714e99d9fff2c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:39 +0000
Subject: [PATCH 74/92] fix: the line search of subgradient solvers evaluates
 the maximal step size before it accepts it

---
 Solvers/SolversNSMSubLS.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 8314856..578cfca 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -336,16 +336,13 @@ namespace ROPTLIB{
                 ZoomLP(prestepsize, stepsize);
                 break;
             }
-            if (dh() >= LS_beta * initialslope)
+            if (dh() >= LS_beta * initialslope || stepsize >= Maxstepsize)
             {
                 break;
             } else
             {
                 prestepsize = stepsize;
                 stepsize = (2 * stepsize < Maxstepsize) ? 2 * stepsize : Maxstepsize;
-
-                if (stepsize == Maxstepsize)
-                    break;
             }
         }
         if (stepsize <= Minstepsize)
-- 
2.43.0


From a2f9d983d65b160cb31db139abb32be563413e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:48 +0000
Subject: [PATCH 75/92] fix: the line search of subgradient solvers rejects a
 cost that is not a number

---
 Solvers/SolversNSMSubLS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 578cfca..1527d42 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -331,7 +331,7 @@ namespace ROPTLIB{
         while (1)
         {
             f2 = h();
-            if (f2 - f1 - LS_alpha * initialslope * stepsize > 0) /*-initialslope = \|g\|_P^2*/
+            if (!(f2 - f1 - LS_alpha * initialslope * stepsize <= 0)) /*-initialslope = \|g\|_P^2*/
             {
                 ZoomLP(prestepsize, stepsize);
                 break;
@@ -374,7 +374,7 @@ namespace ROPTLIB{
             }
 
             f2 = h();
-            if (f2 - f1 - LS_alpha * initialslope * stepsize > 0)
+            if (!(f2 - f1 - LS_alpha * initialslope * stepsize <= 0))
             {
                 b = stepsize;
             }
-- 
2.43.0


From 5bbcac54ed43c78236f28995e2bd58b252676dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:56 +0000
Subject: [PATCH 76/92] fix: subgradient solvers write the last entry of their
 series of direction norms

---
 Solvers/SolversNSMSubLS.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 1527d42..572a356 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -116,7 +116,10 @@ namespace ROPTLIB{
 		}
 		ComTime = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
 		if (Verbose >= ITERRESULT)
+		{
+			dirSeriesptr[iter] = ndir1;
 			lengthSeries = iter + 1;
+		}
         PrintFinalInfo();
 	};
 
-- 
2.43.0


From 648daac206b992e1f49ee9cf8ea5ddf9ec444f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:17 +0000
Subject: [PATCH 77/92] fix: the last trial point of
 SolversNSMSubLS::Increasing comes with its own gradient

---
 Solvers/SolversNSMSubLS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 572a356..7aaeea7 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -315,6 +315,8 @@ namespace ROPTLIB{
 			}
 			times++;
 		}
+		if (times == 10)
+			dh(); /*gradient at the last trial point*/
 		if (times == 10 && Verbose >= ITERRESULT)
 		{
 			printf("warning: the loop in SolversNSMSubLS::Increasing reaches the upperbound!\n");
-- 
2.43.0


From 5c2d80f350bc315189146af69b1edd5aebd9d3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 78/92] fix: reduction of a tolerance in subgradient solvers
 ends at the smallest numbers

---
 Solvers/SolversNSMSubLS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 7aaeea7..c66ae36 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -49,7 +49,7 @@ namespace ROPTLIB{
 			isstop = IsStopped();
 			if (fabs(ndir1) <= Del || (fabs(ndir1) <= Tolerance && Eps > Min_Eps))
 			{
-				if (ndir1 == 0 && Eps <= Min_Eps) /*no direction is left*/
+				if (ndir1 < std::numeric_limits<realdp>::min() && Eps <= Min_Eps) /*no direction is left*/
 					break;
 				Eps *= Theta_eps;
 				Eps = (Eps > Min_Eps) ? Eps : Min_Eps;
@@ -59,7 +59,7 @@ namespace ROPTLIB{
 				}
 				else
 				{
-					while (fabs(ndir1) <= Del && Del > 0)
+					while (fabs(ndir1) <= Del && Del >= std::numeric_limits<realdp>::min())
 					{
 						Del *= Theta_del;
 					}
-- 
2.43.0


From 0681c0db2c5d1968507313d2b3de4812b3c3b914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:59 +0000
Subject: [PATCH 79/92] fix: proximal-gradient line search accepted larger
 costs when the smooth slope is positive

---
 Solvers/SolversNSMPGLS.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Solvers/SolversNSMPGLS.cpp b/Solvers/SolversNSMPGLS.cpp
index f2556e4..aceb717 100644
--- a/Solvers/SolversNSMPGLS.cpp
+++ b/Solvers/SolversNSMPGLS.cpp
@@ -64,8 +64,10 @@ namespace ROPTLIB{
         LSstatus = LSPG_SUCCESS;
         f2 = h();
         realdp maxpref = f1;
+        /* the slope of the smooth part may be positive, the cost is not allowed to increase in this case */
+        realdp slope = (initialslope < 0) ? initialslope : 0;
         /* simple backtracking */
-        while (maxpref - f2 < - LS_alpha * initialslope * stepsize)
+        while (maxpref - f2 < - LS_alpha * slope * stepsize)
         {
             stepsize *= LS_ratio;
             if (stepsize < Minstepsize)
-- 
2.43.0


From c27594150d42ff3240217a1babf93a132797c15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:08 +0000
Subject: [PATCH 80/92] fix: nonsmooth solvers stop at a zero direction also
 when the first direction is zero

---
 Solvers/SolversNSM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/SolversNSM.cpp b/Solvers/SolversNSM.cpp
index f22d149..8db59c0 100644
--- a/Solvers/SolversNSM.cpp
+++ b/Solvers/SolversNSM.cpp
@@ -102,7 +102,7 @@ namespace ROPTLIB{
         if (Stop_Criterion == NSM_DIR_F)
             return ndir1 < Tolerance;
         if (Stop_Criterion == NSM_DIR_F_0)
-            return (ndir1 / ndir0) < Tolerance;
+            return ndir1 == 0 || (ndir1 / ndir0) < Tolerance;
         
         printf("Error: Stopping Criterion is not specefic!\n");
         return true;
-- 
2.43.0


From 0440bfda79f5b2c847d0a7f4129b1f507fbe77ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:15 +0000
Subject: [PATCH 81/92] fix: AManPG counts the evaluations of its accelerated
 steps

---
 Solvers/AManPG.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index 93045c1..695fadb 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -203,16 +203,16 @@ namespace ROPTLIB{
             totalSMiter += SMiter;
             totalSMCGiter += SMCGiter;
             
-            Mani->Retraction(y1, eta1, &z2);
-            fz2 = Prob->f(z2);
+            Mani->Retraction(y1, eta1, &z2); nR++;
+            fz2 = Prob->f(z2); nf++;
             s2 = (1.0 + std::sqrt(1.0 + 4.0 * s1 * s1)) / 2.0;
             Vector zeta(gf1); Mani->InvRetraction(z2, z1, &zeta);
             Mani->ScalarTimesVector(z2, -(s1 - 1) / s2, zeta, &zeta);
             
-            Mani->Retraction(z2, zeta, &y2);
+            Mani->Retraction(z2, zeta, &y2); nR++;
             
-            fy2 = Prob->f(y2);
-            Prob->Grad(y2, &gfy2);
+            fy2 = Prob->f(y2); nf++;
+            Prob->Grad(y2, &gfy2); ng++;
             
             /*Call the function to check whether the stopping criterion is satisfied or not.
             The default function is written in Solvers.h and Solvers.cpp*/
-- 
2.43.0


From 03395b36553e3b19a1669b194b3ccda4243181ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:22 +0000
Subject: [PATCH 82/92] fix: stopping criteria of AManPG judge its iterates,
 not candidates of the line search

---
 Solvers/AManPG.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index 695fadb..94a8286 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -106,6 +106,7 @@ namespace ROPTLIB{
         
         s1 = 1;
         iter = 0;
+        realdp fpre = std::numeric_limits<realdp>::infinity(), ftmp; /*cost at the previous safeguard iterate*/
         
         Vector initialstepsize(1 + Max_Iteration), acceptedstepsize(1 + Max_Iteration);
         realdp *timeSeriesptr = timeSeries.ObtainWritePartialData();
@@ -194,6 +195,8 @@ namespace ROPTLIB{
                     s1 = 1;
                 }
                 /*update the safeguard iterate*/
+                if(iter != 0)
+                    fpre = f1;
                 x1 = z1;
                 f1 = Prob->f(x1); nf++;
                 Prob->Grad(x1, &gf1); ng++;
@@ -214,9 +217,13 @@ namespace ROPTLIB{
             fy2 = Prob->f(y2); nf++;
             Prob->Grad(y2, &gfy2); ng++;
             
-            /*Call the function to check whether the stopping criterion is satisfied or not.
+            /*Call the function to check whether the stopping criterion is satisfied or not. It judges the last
+            two safeguard iterates, not the candidate of the line search.
             The default function is written in Solvers.h and Solvers.cpp*/
+            ftmp = f2;
+            f2 = fpre; x2 = x1;
             isstop = IsStopped();
+            f2 = ftmp;
             
             iter++;
 
-- 
2.43.0


From 46dafbc159e406d0805f7320c085be47e9354c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:12 +0000
Subject: [PATCH 83/92] fix: proximal-gradient solvers measure their direction
 in the metric at its foot

---
 Solvers/AManPG.cpp | 2 +-
 Solvers/ManPG.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index 94a8286..2a198b4 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -137,7 +137,7 @@ namespace ROPTLIB{
                 Mani->TangentSpaceProximalMap(x1, gf1, adavalue, SMtol, SMlambda, Prob, &initD, &SMiter, &SMCGiter, &eta1);
                 totalSMiter += SMiter;
                 totalSMCGiter += SMCGiter;
-                ndir1 = sqrt(Mani->Metric(x2, eta1, eta1));
+                ndir1 = sqrt(Mani->Metric(x1, eta1, eta1));
                 if(ndir0 == 0)
                 { /*initialize ndir0*/
                     ndir0 = ndir1;
diff --git a/Solvers/ManPG.cpp b/Solvers/ManPG.cpp
index 8f959af..f5a1c09 100644
--- a/Solvers/ManPG.cpp
+++ b/Solvers/ManPG.cpp
@@ -61,7 +61,7 @@ namespace ROPTLIB{
             totalSMiter += SMiter;
             totalSMCGiter += SMCGiter;
             
-            ndir1 = sqrt(Mani->Metric(x2, eta1, eta1));
+            ndir1 = sqrt(Mani->Metric(x1, eta1, eta1));
             if(ndir0 == 0)
             { /*initialize ndir0*/
                 ndir0 = ndir1;
-- 
2.43.0


From cf997f61cc5144eff96ed374bd10629bb4db8dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:17 +0000
Subject: [PATCH 84/92] fix: RandGaussian draws from the normal distribution
 with the given mean and variance

---
 Manifolds/SmartSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/SmartSpace.cpp b/Manifolds/SmartSpace.cpp
index 4357d45..89ab4f7 100644
--- a/Manifolds/SmartSpace.cpp
+++ b/Manifolds/SmartSpace.cpp
@@ -73,7 +73,7 @@ namespace ROPTLIB{
 	{
 		NewMemoryOnWrite();
 		for (integer i = 0; i < length; i++)
-			Space[i] = (genrandnormal() + mean) * variance;
+			Space[i] = genrandnormal() * sqrt(variance) + mean;
 	};
 
     void SmartSpace::SetToZeros(void)
-- 
2.43.0


From a179f67b4d2c5f4a52d62cf2533334a1422df780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:11 +0000
Subject: [PATCH 85/92] fix: combinations of tangent vectors in the
 minimum-norm problem are formed by the manifold

---
 Problems/SphereConvexHull.cpp | 33 +++++++++++++++++++++++----------
 Problems/SphereConvexHull.h   |  1 +
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/Problems/SphereConvexHull.cpp b/Problems/SphereConvexHull.cpp
index 0aa766b..732da17 100644
--- a/Problems/SphereConvexHull.cpp
+++ b/Problems/SphereConvexHull.cpp
@@ -25,17 +25,34 @@ namespace ROPTLIB{
 		return (xW == nullptr) ? v1.DotProduct(v2) : Mani->Metric(*xW, v1, v2);
 	};
 
+	Vector &SphereConvexHull::Combination(const realdp *coefs, Vector *result) const
+	{
+		if(xW == nullptr)
+		{
+			result->SetToZeros();
+			for(integer i = 0; i < lengthW; i++)
+			{
+				*result = coefs[i] * W[i] + *result;
+			}
+			return *result;
+		}
+		/*combinations of tangent vectors may carry more than their entries*/
+		Mani->ScalarTimesVector(*xW, coefs[0], W[0], result);
+		for(integer i = 1; i < lengthW; i++)
+		{
+			Vector tmp(*result);
+			Mani->ScalarVectorAddVector(*xW, coefs[i], W[i], tmp, result);
+		}
+		return *result;
+	};
+
 	realdp SphereConvexHull::f(const Variable &x) const
 	{
         Vector xsq = x.GetHadamardProduct(x);
         const realdp *xsqPtr = xsq.ObtainReadData();
         
         Vector Wxsq(W[0]), PWxsq(W[0]);
-        Wxsq.SetToZeros();
-        for(integer i = 0; i < lengthW; i++)
-        {
-            Wxsq = xsqPtr[i] * W[i] + Wxsq;
-        }
+        Combination(xsqPtr, &Wxsq);
         if(Hv == nullptr)
         {
             PWxsq = Wxsq;
@@ -75,11 +92,7 @@ namespace ROPTLIB{
         Vector xeta = x.GetHadamardProduct(etax);
         const realdp *xetaptr = xeta.ObtainReadData();
         Vector Wxeta(W[0]), PWxeta(W[0]);
-        Wxeta.SetToZeros();
-        for(integer i = 0; i < lengthW; i++)
-        {
-            Wxeta = xetaptr[i] * W[i] + Wxeta;
-        }
+        Combination(xetaptr, &Wxeta);
         if(Hv == nullptr)
         {
             PWxeta = Wxeta;
diff --git a/Problems/SphereConvexHull.h b/Problems/SphereConvexHull.h
index 0c481c6..525ccbc 100644
--- a/Problems/SphereConvexHull.h
+++ b/Problems/SphereConvexHull.h
@@ -44,6 +44,7 @@ namespace ROPTLIB{
 
 	private:
 		realdp InnerProduct(const Vector &v1, const Vector &v2) const;
+		Vector &Combination(const realdp *coefs, Vector *result) const;
 	};
 
 }; /*end of ROPTLIB namespace*/
-- 
2.43.0


From a52228de9d90585d928affb5830f44885875d57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:37 +0000
Subject: [PATCH 86/92] fix: periodic splines kept two entries of the linear
 system in the same place

---
 Others/Spline.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Others/Spline.cpp b/Others/Spline.cpp
index 885c9ec..6e16b0c 100644
--- a/Others/Spline.cpp
+++ b/Others/Spline.cpp
@@ -9,10 +9,10 @@ namespace ROPTLIB{
 		int i, nn;
 		realdp *d, *ud, *ld, *vec, *s;
 		nn = n - 1;
-		d = new realdp[5 * nn - 1];
+		d = new realdp[5 * nn + 1]; /*the corner entries ld[0] and ud[nn - 1] of the periodic system are stored as well*/
 		ud = d + nn;
-		ld = ud + (nn - 1);
-		vec = ld + (nn - 1);
+		ld = ud + nn;
+		vec = ld + nn;
 		s = vec + nn;
 		if (fabs(Y[0] - Y[nn]) > sqrt(std::numeric_limits<realdp>::epsilon()))
 		{
@@ -54,10 +54,10 @@ namespace ROPTLIB{
 		realdp *d, *ud, *ld, *vec, *s;
 		realdp hi;
 		nn = n - 1;
-		d = new realdp[5 * nn - 1];
+		d = new realdp[5 * nn + 1]; /*the corner entries ld[0] and ud[nn - 1] of the periodic system are stored as well*/
 		ud = d + nn;
-		ld = ud + (nn - 1);
-		vec = ld + (nn - 1);
+		ld = ud + nn;
+		vec = ld + nn;
 		s = vec + nn;
 		if (fabs(Y[0] - Y[nn]) > sqrt(std::numeric_limits<realdp>::epsilon()))
 		{
-- 
2.43.0


From 7189d4c833c0b4a9ad5ebc53b86ef02f99dc0638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:44 +0000
Subject: [PATCH 87/92] fix: periodic splines with one or two intervals

---
 Others/Spline.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/Others/Spline.cpp b/Others/Spline.cpp
index 6e16b0c..e77583b 100644
--- a/Others/Spline.cpp
+++ b/Others/Spline.cpp
@@ -230,6 +230,32 @@ namespace ROPTLIB{
 		realdp temp = ud[nn - 1];
 		realdp coef;
 		int i;
+		if (nn == 1) /*one interval: all the entries meet in one equation*/
+		{
+			d[0] += ld[0] + ud[0];
+			if (fabs(d[0]) < std::numeric_limits<realdp>::epsilon())
+			{
+				printf("upper triangle system can not be solved!!");
+				return 0;
+			}
+			s[1] = vec[0] / d[0];
+			s[0] = s[1];
+			return 1;
+		}
+		if (nn == 2) /*two intervals: the lower and the upper neighbour coincide*/
+		{
+			realdp ud0 = ud[0] + ld[0], ld1 = ld[1] + ud[1], det = d[0] * d[1] - ud0 * ld1;
+			if (fabs(det) < std::numeric_limits<realdp>::epsilon())
+			{
+				printf("upper triangle system can not be solved!!");
+				return 0;
+			}
+			s[1] = (vec[0] * d[1] - ud0 * vec[1]) / det;
+			s[2] = (d[0] * vec[1] - ld1 * vec[0]) / det;
+			s[0] = s[2];
+			return 1;
+		}
+
 		realdp *last_column = new realdp[nn - 2];
 		last_column[0] = ld[0];
 
-- 
2.43.0


From a6f453a09c7bb35e891f2702d131e1e41bf0879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:50 +0000
Subject: [PATCH 88/92] fix: splines are evaluated on the right piece when the
 first knot is not zero

---
 Others/Spline.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Others/Spline.cpp b/Others/Spline.cpp
index e77583b..dba40ad 100644
--- a/Others/Spline.cpp
+++ b/Others/Spline.cpp
@@ -319,7 +319,7 @@ namespace ROPTLIB{
 		realdp output;
 		nn = N - 1;
 		i = 0;
-		while (i < N && t - (breaks[i] - breaks[0]) >= -std::numeric_limits<realdp>::epsilon())
+		while (i < N && t - breaks[i] >= -std::numeric_limits<realdp>::epsilon())
 			i++;
 		i--;
 		i = (i < 0) ? 0 : i;
@@ -378,7 +378,7 @@ namespace ROPTLIB{
 		nn = N - 1;
 		i = 0;
 
-		while (i < N && t - (breaks[i] - breaks[0]) >= -std::numeric_limits<realdp>::epsilon())
+		while (i < N && t - breaks[i] >= -std::numeric_limits<realdp>::epsilon())
 			i++;
 		i--;
 		i = (i < 0) ? 0 : i;
@@ -419,7 +419,7 @@ namespace ROPTLIB{
 		realdp output;
 		nn = N - 1;
 		i = 0;
-		while (i < N && t - (breaks[i] - breaks[0]) >= -std::numeric_limits<realdp>::epsilon())
+		while (i < N && t - breaks[i] >= -std::numeric_limits<realdp>::epsilon())
 			i++;
 		i--;
 		i = (i < 0) ? 0 : i;
-- 
2.43.0


From 53c844375046486bb1b5cdf13360c50094b62d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:57 +0000
Subject: [PATCH 89/92] fix: splines release their work space when the linear
 system can not be solved

---
 Others/Spline.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Others/Spline.cpp b/Others/Spline.cpp
index dba40ad..cd2d8c5 100644
--- a/Others/Spline.cpp
+++ b/Others/Spline.cpp
@@ -33,6 +33,7 @@ namespace ROPTLIB{
 		if (!SolvePeriodicSystem(d, ud, ld, vec, s, nn))
 		{
 			printf("error: fail to slove the linear system!!\n");
+			delete[] d;
 			return 0;
 		}
 
@@ -84,6 +85,7 @@ namespace ROPTLIB{
 		if (!SolvePeriodicSystem(d, ud, ld, vec, s, nn))
 		{
 			printf("error: fail to slove the linear system!!\n");
+			delete[] d;
 			return 0;
 		}
 
@@ -134,6 +136,7 @@ namespace ROPTLIB{
 		if (!SolveTridiagonalSystem(d, ud, ld, vec, s, n))
 		{
 			printf("error: fail to slove tridiagonal system!!\n");
+			delete[] d;
 			return 0;
 		}
 
@@ -180,6 +183,7 @@ namespace ROPTLIB{
 		if (!SolveTridiagonalSystem(d, ud, ld, vec, s, n))
 		{
 			printf("error: fail to slove tridiagonal system!!\n");
+			delete[] d;
 			return 0;
 		}
 
@@ -295,6 +299,7 @@ namespace ROPTLIB{
 		if (fabs(d[nn - 1]) < std::numeric_limits<realdp>::epsilon())
 		{
 			printf("upper triangle system can not be solved!!");
+			delete[] last_column;
 			return 0;
 		}
 		s[nn - 1] = (vec[nn - 2] - s[nn] * ud[nn - 2]) / d[nn - 2];
@@ -303,6 +308,7 @@ namespace ROPTLIB{
 			if (fabs(d[i - 1]) < std::numeric_limits<realdp>::epsilon())
 			{
 				printf("upper triangle system can not be solved!!");
+				delete[] last_column;
 				return 0;
 			}
 			s[i] = (vec[i - 1] - s[nn] * last_column[i - 1] - s[i + 1] * ud[i - 1]) / d[i - 1];
-- 
2.43.0


From b781bec832fc31d2b1ee668219095f67470c94c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:14 +0000
Subject: [PATCH 90/92] fix: HasHHR set by name is not reset by a ParamSet
 given at the same time

---
 Manifolds/CStiefel.cpp | 2 +-
 Manifolds/Sphere.cpp   | 1 +
 Manifolds/Stiefel.cpp  | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index cc5004d..27b3e83 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -697,7 +697,6 @@ namespace ROPTLIB{
 
 	void CStiefel::SetParams(PARAMSMAP params)
 	{
-		Manifold::SetParams(params);
 		PARAMSMAP::iterator iter;
 		for (iter = params.begin(); iter != params.end(); iter++)
 		{
@@ -722,5 +721,6 @@ namespace ROPTLIB{
 				}
 			}
 		}
+		Manifold::SetParams(params); /*after the parameter set, which resets HasHHR*/
 	};
 }; /*end of ROPTLIB namespace*/
diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index b35ccbd..d2c8dcc 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -290,5 +290,6 @@ namespace ROPTLIB{
 				}
 			}
 		}
+		Manifold::SetParams(params); /*after the parameter set, which resets HasHHR*/
 	};
 }; /*end of ROPTLIB namespace*/
diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index 87004ee..f3af790 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -971,7 +971,6 @@ namespace ROPTLIB{
 
 	void Stiefel::SetParams(PARAMSMAP params)
 	{
-		Manifold::SetParams(params);
 		PARAMSMAP::iterator iter;
 		for (iter = params.begin(); iter != params.end(); iter++)
 		{
@@ -999,5 +998,6 @@ namespace ROPTLIB{
 				}
 			}
 		}
+		Manifold::SetParams(params); /*after the parameter set, which resets HasHHR*/
 	};
 }; /*end of ROPTLIB namespace*/
-- 
2.43.0


From 2b155f4fe29774e8d971671efa6b9755b9e0b96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:14 +0000
Subject: [PATCH 91/92] fix: Barzilai-Borwein step sizes use the metric at the
 point their vectors live at

---
 Solvers/SolversSMLS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index bb37401..973656a 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -222,8 +222,8 @@ namespace ROPTLIB{
                 Mani->VectorTransport(x2, eta2, x1, eta2, &s); nV++;
                 Mani->VectorTransport(x2, eta2, x1, gf2, &y); nVp++;
                 Mani->VectorLinearCombination(x1, 1, gf1, -1, y, &y);
-				BB1 = Mani->Metric(x2, s, s) / Mani->Metric(x2, s, y);
-				BB2 = Mani->Metric(x2, s, y) / Mani->Metric(x2, y, y);
+				BB1 = Mani->Metric(x1, s, s) / Mani->Metric(x1, s, y);
+				BB2 = Mani->Metric(x1, s, y) / Mani->Metric(x1, y, y);
 				pre_BBs.push_front((BB2 < std::numeric_limits<realdp>::epsilon()) ? Initstepsize / ngf1 : BB2);
 				if (pre_BBs.size() > Num_pre_BB)
 					pre_BBs.pop_back();
-- 
2.43.0


From 88ec302207972f17d65b70dedf71b0bef08e73ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:51 +0000
Subject: [PATCH 92/92] fix: subgradient line-search solvers divided by a zero
 direction when the hull contains the zero vector

---
 Solvers/SolversNSMSubLS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index c66ae36..47e3d80 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -267,6 +267,8 @@ namespace ROPTLIB{
             /*end the stopping criterion*/
             
 			ndir1 = sqrt(Mani->Metric(x1, eta1, eta1));
+			if (ndir1 == 0) /*the hull contains the zero vector: there is no direction to test*/
+				return;
 			stepsize = Eps / ndir1;
 			f2 = h();
 			hb = f2 - f1 + LS_alpha * stepsize * Pngfsq; /* - Pngfsq is the initial slope*/
-- 
2.43.0

