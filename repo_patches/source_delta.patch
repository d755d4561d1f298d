From 536a52042a97d908e12202744b09be480fda2363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:11 +0000
Subject: [PATCH 01/63] fix: assigning to a SmartPointee must not reset its
 reference counter

Resetting refCount to 0 while SmartPointers refer to the object makes the
object either leak or be destroyed while still referred to.
---
 lib/SmartPointer.C | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/lib/SmartPointer.C b/lib/SmartPointer.C
index 6cef8e9..0f41ffc 100644
--- a/lib/SmartPointer.C
+++ b/lib/SmartPointer.C
@@ -43,21 +43,10 @@ Gyoto::SmartPointee::SmartPointee(const SmartPointee&) :
 #endif
 }
 
-Gyoto::SmartPointee& Gyoto::SmartPointee::operator=(const SmartPointee& right){
-  // Check for self-assignment
-  if (this == &right) {
-    return *this;
-  }
-
-  // initialize the refcound to 0: the two objects do not use the same
-  // reference counter
-  refCount = 0;
-
-  // Reinitialize the mutex if needed
-#ifdef HAVE_PTHREAD
-  pthread_mutex_destroy(&mutex_); // Destroy the old mutex
-  pthread_mutex_init(&mutex_, NULL); // Initialize a new mutex
-#endif
+Gyoto::SmartPointee& Gyoto::SmartPointee::operator=(const SmartPointee&){
+  // The two objects do not use the same reference counter: the
+  // SmartPointers currently pointing at *this still do after the
+  // assignment, so that refCount and mutex_ must remain untouched.
 
   // Return a reference to the current object
   return *this;
-- 
2.43.0


From 6b309fe62cf34292bea52c8739d8b30dcbe715d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:41 +0000
Subject: [PATCH 02/63] fix: SmartPointer assignment from an object owned by
 the previous target

p = p->member() destroyed the new target together with the old one when
assigning from a plain (or const smart) pointer, and read a member of the
destroyed object when assigning from a smart pointer.
---
 include/GyotoSmartPointer.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/GyotoSmartPointer.h b/include/GyotoSmartPointer.h
index 5115af8..45ddc80 100644
--- a/include/GyotoSmartPointer.h
+++ b/include/GyotoSmartPointer.h
@@ -285,12 +285,15 @@ class Gyoto::SmartPointer
       if (this == &right)
 	return *this;
       
-      if (right.obj)
-	right.obj->incRefCount ();
+      // right may be owned by *obj: don't read it after decRef()
+      T* newobj = right.obj;
+
+      if (newobj)
+	newobj->incRefCount ();
       
       decRef ();
       
-      obj = right.obj;
+      obj = newobj;
       
       return *this;
     }
@@ -304,11 +307,12 @@ class Gyoto::SmartPointer
       if (obj == right)
 	return *this;
       
+      // *right may be owned by *obj: increment before decrementing
+      if (right) right->incRefCount();
+
       decRef ();
       
       obj = right;
-
-      if (obj) obj->incRefCount();
       
       return *this;
     }
-- 
2.43.0


From d2d6c416c31f7d90d994499d2219204ef0843b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:28 +0000
Subject: [PATCH 03/63] fix: Screen::Range with null step or stop before start

A null step crashed with SIGFPE; size() was garbage (unsigned wrap-around)
for an empty range.
---
 lib/Screen.C | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Screen.C b/lib/Screen.C
index 9fd6825..4652084 100644
--- a/lib/Screen.C
+++ b/lib/Screen.C
@@ -1559,8 +1559,11 @@ double Screen::Coord1dSet::angle () const {
 ///////
 
 Screen::Range::Range(size_t mi, size_t ma, size_t d)
-  : Coord1dSet(pixel), mi_(mi), ma_(ma), d_(d), sz_((ma-mi)/d+1), cur_(mi)
-{}
+  : Coord1dSet(pixel), mi_(mi), ma_(ma), d_(d),
+    sz_((d && ma>=mi) ? (ma-mi)/d+1 : 0), cur_(mi)
+{
+  if (!d) GYOTO_ERROR("step must not be 0 in Screen::Range");
+}
 
 void Screen::Range::begin() {cur_=mi_;}
 Screen::Coord1dSet& Screen::Range::operator++() {
-- 
2.43.0


From 166846ae04369ad69d0be952df8711966e42b439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:47 +0000
Subject: [PATCH 04/63] fix: don't read pixel coordinates past the end of the
 set in rayTrace

The coordinates were read before checking that there was anything left to
read: out-of-bounds read for Indices and Angles, abort for Empty.
---
 lib/Scenery.C | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index 27023a1..b5567d7 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -267,11 +267,6 @@ static void * SceneryThreadWorker (void *arg) {
     if (larg->mutex) pthread_mutex_lock(larg->mutex);
 #endif
 
-    // copy i & j or alpha and delta
-
-    if (larg->is_pixel) ijb =  *(larg->ij);
-    else ad = larg->ij.angles();
-
     if (!larg->ij.valid()) {
       // terminate, but first...
 #ifdef HAVE_PTHREAD
@@ -281,6 +276,10 @@ static void * SceneryThreadWorker (void *arg) {
       break;
     }
 
+    // copy i & j or alpha and delta
+    if (larg->is_pixel) ijb =  *(larg->ij);
+    else ad = larg->ij.angles();
+
     size_t lcnt = larg->cnt++;
 
     ++(larg->ij);
-- 
2.43.0


From 919e6d1b45cece188128df0c5e3abf7b03e45f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:47 +0000
Subject: [PATCH 05/63] fix: Scenery::rayTrace() crashed when called with
 data==NULL

---
 lib/Scenery.C | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index b5567d7..fa20e0e 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -290,15 +290,15 @@ static void * SceneryThreadWorker (void *arg) {
 #endif
 
     // Store current cell
-    data = *larg->data;
+    if (larg->data) data = *larg->data;
     size_t cell=lcnt;
     if (larg->is_pixel && data.alloc) cell=(ijb[1]-1)*larg->npix+ijb[0]-1;
     data += cell;
     impactcoords=larg->impactcoords?larg->impactcoords+16*cell:NULL;
 
     if (larg->is_pixel)
-      (*larg->sc)(ijb[0], ijb[1], &data, impactcoords, ph);
-    else (*larg->sc)(ad[0], ad[1], &data, ph);
+      (*larg->sc)(ijb[0], ijb[1], larg->data?&data:NULL, impactcoords, ph);
+    else (*larg->sc)(ad[0], ad[1], larg->data?&data:NULL, ph);
 
     ++count;
   }
-- 
2.43.0


From ba17d4ba21676f4717263a1a2379f5f36a0a2090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:47 +0000
Subject: [PATCH 06/63] fix: failure of pthread_create was not detected in
 rayTrace

pthread_create() returns a positive error number, not -1: joining the
threads that did not start crashed. Carry on with the threads that did
start. The array of thread handles was also leaked.
---
 lib/Scenery.C | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index fa20e0e..f6aab7e 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -663,6 +663,7 @@ void Scenery::rayTrace(Screen::Coord2dSet & ij,
   pthread_t pself = pthread_self();
   larg.parent = &pself;
   bool thread_safe = isThreadSafe();
+  size_t nlaunched = 0;
   if (nthreads_ >= 2) {
     if (!thread_safe) {
       GYOTO_WARNING <<
@@ -671,10 +672,13 @@ void Scenery::rayTrace(Screen::Coord2dSet & ij,
     } else {
       threads = new pthread_t[nthreads_-1];
       larg.mutex  = &mumu;
-      for (size_t th=0; th < nthreads_-1; ++th) {
-	if (pthread_create(threads+th, NULL,
-			   SceneryThreadWorker, static_cast<void*>(&larg)) < 0)
-	  GYOTO_ERROR("Error creating thread");
+      for (; nlaunched < nthreads_-1; ++nlaunched) {
+	if (pthread_create(threads+nlaunched, NULL,
+			   SceneryThreadWorker, static_cast<void*>(&larg))) {
+	  GYOTO_WARNING << "Error creating thread, carrying on with "
+			<< nlaunched+1 << endl;
+	  break;
+	}
       }
     }
   }
@@ -686,9 +690,9 @@ void Scenery::rayTrace(Screen::Coord2dSet & ij,
 
 #ifdef HAVE_PTHREAD
   // Wait for the child threads
-  if (thread_safe && nthreads_>=2)
-    for (size_t th=0; th < nthreads_-1; ++th)
-      pthread_join(threads[th], NULL);
+  for (size_t th=0; th < nlaunched; ++th)
+    pthread_join(threads[th], NULL);
+  delete [] threads;
 #endif
 
   gettimeofday(&tim, NULL);
-- 
2.43.0


From 24e952476f8f95d87e806d41e3fe1d09e1a0241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:02 +0000
Subject: [PATCH 07/63] fix: BlackBody::colorCorrection() rescaled the
 temperature at each call

---
 lib/BlackBodySpectrum.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/BlackBodySpectrum.C b/lib/BlackBodySpectrum.C
index bbd2f35..3104a8e 100644
--- a/lib/BlackBodySpectrum.C
+++ b/lib/BlackBodySpectrum.C
@@ -49,12 +49,12 @@ Spectrum::BlackBody * Spectrum::BlackBody::clone() const
 { return new Spectrum::BlackBody(*this); }
 
 double Spectrum::BlackBody::temperature() const { return T_; }
-void Spectrum::BlackBody::temperature(double c) { T_ = c; Tm1_=1./T_; }
+void Spectrum::BlackBody::temperature(double c) { T_ = c; Tm1_=1./(T_*colorcor_); }
 double Spectrum::BlackBody::scaling() const { return cst_; }
 void Spectrum::BlackBody::scaling(double c) { cst_ = c; }
 double Spectrum::BlackBody::colorCorrection() const { return colorcor_; }
 void Spectrum::BlackBody::colorCorrection(double c) {
-  colorcor_ = c; colorcorm4_ = 1./(c*c*c*c); T_*=c; Tm1_/=c;}
+  colorcor_ = c; colorcorm4_ = 1./(c*c*c*c); Tm1_=1./(T_*c);}
 
 double Spectrum::BlackBody::operator()(double nu) const {
   return  colorcorm4_*cst_*nu*nu*nu
-- 
2.43.0


From 7a990e0853e814151bc122b5270e5939772f6575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:02 +0000
Subject: [PATCH 08/63] fix: StochasticThinDisk::motionKind() refused Static

---
 lib/StochasticThinDisk.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/StochasticThinDisk.C b/lib/StochasticThinDisk.C
index 3be6860..d7493a2 100644
--- a/lib/StochasticThinDisk.C
+++ b/lib/StochasticThinDisk.C
@@ -92,7 +92,7 @@ string StochasticThinDisk::equationKind() const {
 void StochasticThinDisk::motionKind(string const &kind) {
   if (kind == "Static")
     motionkind_ = STATIC;
-  if (kind == "Circular")
+  else if (kind == "Circular")
     motionkind_ = CIRCULAR;
   else if (kind == "Radial")
     motionkind_ = RADIAL;
-- 
2.43.0


From 2b7f9a0c044f810e75189a9a1f892f510af489c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:24 +0000
Subject: [PATCH 09/63] fix: PageThorneDisk default InnerRadius did not follow
 changes of the metric

---
 lib/PageThorneDisk.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/PageThorneDisk.C b/lib/PageThorneDisk.C
index 71d5782..5b4d861 100644
--- a/lib/PageThorneDisk.C
+++ b/lib/PageThorneDisk.C
@@ -99,6 +99,8 @@ void PageThorneDisk::updateSpin() {
   default:
     GYOTO_ERROR("PageThorneDisk::getSpin(): unknown COORDKIND");
   }
+  // InnerRadius follows the ISCO unless it was set to something else
+  bool atms = (rin_==0. || rin_==x0_*x0_);
   aa2_=aa_*aa_;
   double z1 =1.+pow((1.-aa2_),1./3.)*(pow((1.+ aa_),1./3.)+pow((1.-aa_),1./3.));
   double z2 = pow(3.*aa2_ + z1*z1,0.5);
@@ -109,7 +111,7 @@ void PageThorneDisk::updateSpin() {
   x2_ = 2.*cos(acosaao3 + M_PI/3.); 
   x3_ = -2.*cos(acosaao3);
 
-  if (rin_==0.) rin_=(3.+z2-sqrt((3.-z1)*(3.+z1+2.*z2)));
+  if (atms) rin_=x0_*x0_;
 }
 
 void PageThorneDisk::metric(SmartPointer<Metric::Generic> gg) {
-- 
2.43.0


From ce1049e9c95ee3f4da2563a3d5a2a2d2263892bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:48 +0000
Subject: [PATCH 10/63] fix: FreeStar::initVelocity() read back another value
 than was set

The velocity was normalised in place with the metric of the moment, so
that InitVelocity did not read back (nor in XML) as it was set, a
refused velocity was kept, and later changes of the metric were ignored.
---
 lib/FreeStar.C | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/lib/FreeStar.C b/lib/FreeStar.C
index f2f225d..065752a 100644
--- a/lib/FreeStar.C
+++ b/lib/FreeStar.C
@@ -57,8 +57,8 @@ FreeStar::FreeStar() :
   GYOTO_DEBUG << "done." << endl;
 # endif
 
-  posIni_= new double[4];
-  fourveldt_= new double[4];
+  posIni_= new double[4]();
+  fourveldt_= new double[4]();
 }
 
 FreeStar::FreeStar(const FreeStar& orig) :
@@ -110,10 +110,7 @@ std::vector<double> FreeStar::initPosition() const {
 void FreeStar::initVelocity(std::vector<double> const &v) {
   if (!posSet_)
     GYOTO_ERROR("In FreeStar::initVelocity initial Position not defined");
-  fourveldt_[1] = v[0];
-  fourveldt_[2] = v[1];
-  fourveldt_[3] = v[2];
-  fourveldt_[0] = 1.;
+  double vel[4] = {1., v[0], v[1], v[2]};
 
   double sum = 0;
   double g[4][4];
@@ -122,14 +119,13 @@ void FreeStar::initVelocity(std::vector<double> const &v) {
 
   for (int i=0;i<4;++i) {
     for (int j=0;j<4;++j) {
-      sum+=g[i][j]*fourveldt_[i]*fourveldt_[j];
+      sum+=g[i][j]*vel[i]*vel[j];
     }
   }
   if (sum>=0)
     GYOTO_ERROR("In FreeStar::initVelocity Initial Velocity over C");
 
-  gg_->normalizeFourVel(posIni_, fourveldt_);
-
+  for (int i=0;i<4;++i) fourveldt_[i] = vel[i];
 }
 
 std::vector<double> FreeStar::initVelocity() const {
@@ -205,5 +201,6 @@ void FreeStar::getVelocity(double const *, double vel[4]){
   vel[0] = fourveldt_[0];
   vel[1] = fourveldt_[1];
   vel[2] = fourveldt_[2];
-  vel[3] = fourveldt_[3];  
+  vel[3] = fourveldt_[3];
+  gg_->normalizeFourVel(posIni_, vel);
 }
-- 
2.43.0


From b4b3ae36663db1dec7fa0e2fb5a77d1ae566bf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:48 +0000
Subject: [PATCH 11/63] fix: StarTrace TMin/TMax setters modified each other's
 value

---
 lib/StarTrace.C | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/lib/StarTrace.C b/lib/StarTrace.C
index cc4818f..bc1509e 100644
--- a/lib/StarTrace.C
+++ b/lib/StarTrace.C
@@ -184,10 +184,7 @@ void StarTrace::setInitialCondition(double const coord[8]) {
 double StarTrace::TMin() const { return tmin_; }
 void StarTrace::TMin(double t)
 {
-  if (t>tmax_) {
-    tmin_=tmax_;
-    tmax_=t;
-  } else tmin_=t;
+  tmin_=t;
   GYOTO_DEBUG_EXPR(tmin_);
   GYOTO_DEBUG_EXPR(tmax_);
 }
@@ -195,10 +192,7 @@ void StarTrace::TMin(double t)
 double StarTrace::TMax() const { return tmax_; }
 void StarTrace::TMax(double t)
 {
-  if (t<tmin_) {
-    tmax_=tmin_;
-    tmin_=t;
-  } else tmax_=t;
+  tmax_=t;
   GYOTO_DEBUG_EXPR(tmin_);
   GYOTO_DEBUG_EXPR(tmax_);
 }
@@ -228,7 +222,7 @@ double StarTrace::operator()(double const coord[]) {
   double tmp1;
 
   for (size_t i=imin_; i<=imax_; ++i) {
-    if (x0_[i]<tmin_ || x0_[i]>tmax_) continue;
+    if (x0_[i]<min(tmin_, tmax_) || x0_[i]>max(tmin_, tmax_)) continue;
     tmp1 = x-x_[i];
     tmp  = tmp1 * tmp1;
     tmp1 = y-y_[i];
-- 
2.43.0


From bcf28fafa32b6b4d67a49edf3d1854372b100500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:39 +0000
Subject: [PATCH 12/63] fix: ray-tracing an InflateStar changed its SafetyValue

---
 lib/InflateStar.C | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/InflateStar.C b/lib/InflateStar.C
index f9799b6..07505f3 100644
--- a/lib/InflateStar.C
+++ b/lib/InflateStar.C
@@ -120,10 +120,19 @@ int InflateStar::Impact(Gyoto::Photon* ph, size_t index,
   double time = p1[0];
   double radcur=radiusAt(time);
 
+  // The radius at this date applies to this ray only: restore the
+  // nominal values afterwards, they are visible as properties.
+  double critical_value=critical_value_, safety_value=safety_value_;
+
   critical_value_=radcur*radcur;
   safety_value_ = critical_value_*1.1+0.1;
 
-  return UniformSphere::Impact(ph,index,data);
+  int impact = UniformSphere::Impact(ph,index,data);
+
+  critical_value_ = critical_value;
+  safety_value_ = safety_value;
+
+  return impact;
 }
 
 double InflateStar::emission(double nu_em, double dsem, 
-- 
2.43.0


From 56c82cccf9cb5cfe8009ee7ae8e1796c73b50575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:06 +0000
Subject: [PATCH 13/63] fix: enabling parallel transport left the initial
 polarisation basis uninitialised

---
 lib/Worldline.C | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index aa5fd53..c5217d7 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -317,14 +317,14 @@ void Worldline::eAllocate()
   GYOTO_DEBUG_EXPR(x_size_);
 # endif
   if (!x_size_ || !parallel_transport_) return;
-  ep0_ = new double[x_size_];
-  ep1_ = new double[x_size_];
-  ep2_ = new double[x_size_];
-  ep3_ = new double[x_size_];
-  et0_ = new double[x_size_];
-  et1_ = new double[x_size_];
-  et2_ = new double[x_size_];
-  et3_ = new double[x_size_];
+  ep0_ = new double[x_size_]();
+  ep1_ = new double[x_size_]();
+  ep2_ = new double[x_size_]();
+  ep3_ = new double[x_size_]();
+  et0_ = new double[x_size_]();
+  et1_ = new double[x_size_]();
+  et2_ = new double[x_size_]();
+  et3_ = new double[x_size_]();
 }
 
 void Worldline::eDeallocate() {
-- 
2.43.0


From 8e15851c7c749263f346cf3905ede2c2190fe316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:07 +0000
Subject: [PATCH 14/63] fix: setting the metric or position of a FixedStar (and
 rendering it) reset SafetyValue

Includes: restore the nominal values of an InflateStar also when ray-tracing throws.
---
 lib/FixedStar.C   | 4 +---
 lib/InflateStar.C | 9 ++++++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/FixedStar.C b/lib/FixedStar.C
index 81f88d8..b5bd709 100644
--- a/lib/FixedStar.C
+++ b/lib/FixedStar.C
@@ -141,7 +141,6 @@ void FixedStar::metric(SmartPointer<Metric::Generic> gg) {
   GYOTO_DEBUG << endl;
 # endif
  Generic::metric(gg);
- radius(radius_);
 }
 
 void FixedStar::radius(double r) {
@@ -174,14 +173,13 @@ double FixedStar::rMax() {
 }
 
 void FixedStar::setPos(const double p[3])
-{ for (int i=0; i<3; ++i) pos_[i]=p[i]; radius(radius_);}
+{ for (int i=0; i<3; ++i) pos_[i]=p[i]; }
 
 void FixedStar::position(std::vector<double> const &v) {
   GYOTO_DEBUG_EXPR(v.size());
   if (v.size() !=3)
     GYOTO_ERROR("FixedStar position needs exactly 3 tokens"); 
   for (int i=0; i<3; ++i) pos_[i]=v[i];
-  radius(radius_);
 }
 
 std::vector<double> FixedStar::position() const {
diff --git a/lib/InflateStar.C b/lib/InflateStar.C
index 07505f3..3392549 100644
--- a/lib/InflateStar.C
+++ b/lib/InflateStar.C
@@ -127,7 +127,14 @@ int InflateStar::Impact(Gyoto::Photon* ph, size_t index,
   critical_value_=radcur*radcur;
   safety_value_ = critical_value_*1.1+0.1;
 
-  int impact = UniformSphere::Impact(ph,index,data);
+  int impact = 0;
+  try {
+    impact = UniformSphere::Impact(ph,index,data);
+  } catch (...) {
+    critical_value_ = critical_value;
+    safety_value_ = safety_value;
+    throw;
+  }
 
   critical_value_ = critical_value;
   safety_value_ = safety_value;
-- 
2.43.0


From 29f2aaf84bd26475acf6d510a35d6ede1c789fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:07 +0000
Subject: [PATCH 15/63] fix: default RMax of Torus and FixedStar was frozen at
 the first rendering

---
 lib/FixedStar.C | 7 +++----
 lib/Torus.C     | 3 ++-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/FixedStar.C b/lib/FixedStar.C
index b5bd709..407652d 100644
--- a/lib/FixedStar.C
+++ b/lib/FixedStar.C
@@ -158,13 +158,12 @@ void FixedStar::radius(double r) {
 
 double FixedStar::rMax() {
   if (rmax_==DBL_MAX) {
+    // default value: don't store it, it follows position and radius
     switch (gg_ -> coordKind()) {
     case GYOTO_COORDKIND_SPHERICAL:
-      rmax_=3.*(pos_[0]+radius_);
-      break;
+      return 3.*(pos_[0]+radius_);
     case GYOTO_COORDKIND_CARTESIAN:
-      rmax_=3.*(sqrt(pos_[0]*pos_[0]+pos_[1]*pos_[1]+pos_[2]*pos_[2])+radius_);
-      break;
+      return 3.*(sqrt(pos_[0]*pos_[0]+pos_[1]*pos_[1]+pos_[2]*pos_[2])+radius_);
     default:
       GYOTO_ERROR("unimplemented coordinate system in FixedStar");
     } 
diff --git a/lib/Torus.C b/lib/Torus.C
index f28dfe5..b4dd703 100644
--- a/lib/Torus.C
+++ b/lib/Torus.C
@@ -100,7 +100,8 @@ void Torus::opacity(SmartPointer<Spectrum::Generic> sp) {opacity_=sp;}
 
 double Torus::rMax() {
   if (rmax_==DBL_MAX) {
-    rmax_ = 3.*(c_+sqrt(critical_value_));
+    // default value: don't store it, it follows the radii
+    return 3.*(c_+sqrt(critical_value_));
   }
   return rmax_ ;
 }
-- 
2.43.0


From da24ecc76a3ef33f24a973b01264faaaa4c3aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:42 +0000
Subject: [PATCH 16/63] fix: Blob TimeRef and TimeSigma could be set but not
 read in geometrical_time

---
 lib/Blob.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Blob.C b/lib/Blob.C
index 7c154d1..a260954 100644
--- a/lib/Blob.C
+++ b/lib/Blob.C
@@ -286,7 +286,7 @@ double Blob::timeRef(string const &unit) const
   double tt = timeRef();
   if (unit != "") {
 # ifdef HAVE_UDUNITS
-    tt = Units::Converter("s", unit)(tt);
+    tt = Units::FromSeconds(tt, unit, gg_);
 # else
     GYOTO_WARNING << "Units ignored, please recompile Gyoto with --with-udunits"
 		  << endl ;
@@ -335,7 +335,7 @@ double Blob::timeSigma(string const &unit) const
   double tt = timeSigma();
   if (unit != "") {
 # ifdef HAVE_UDUNITS
-    tt = Units::Converter("s", unit)(tt);
+    tt = Units::FromSeconds(tt, unit, gg_);
 # else
     GYOTO_WARNING << "Units ignored, please recompile Gyoto with --with-udunits"
 		  << endl ;
-- 
2.43.0


From 37c85353ccc3f79f2786449a375d95aa1485ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:22 +0000
Subject: [PATCH 17/63] fix: cloning a Scenery lost the units of its requested
 quantities

---
 lib/Scenery.C | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index f6aab7e..7af4b24 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -152,6 +152,11 @@ Scenery::Scenery(const Scenery& o) :
   , mpi_team_(NULL)
 #endif
 {
+# ifdef HAVE_UDUNITS
+  intensity_converter_ = o.intensity_converter_;
+  spectrum_converter_ = o.spectrum_converter_;
+  binspectrum_converter_ = o.binspectrum_converter_;
+# endif
   if (o.screen_()) {
     screen_=o.screen_->clone();
     screen_->metric(ph_.metric());
-- 
2.43.0


From 7437796862836859fa9056e4a858b9e892e9d5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:43 +0000
Subject: [PATCH 18/63] fix: a refused list of quantities was half applied and
 left the pixel unit registered

Setting it also modified the caller's string.
---
 lib/Scenery.C | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index 7af4b24..b5533cf 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -822,15 +822,24 @@ void Scenery::setRequestedQuantities(Gyoto::Quantity_t quant) {
     parallelTransport(true);
 }
 void Scenery::requestedQuantitiesString(std::string const &squant) {
-  quantities_=0;
-  char * tk = strtok(const_cast<char*>(squant.c_str()), " \t\n");
+  // Work on a copy: strtok modifies its argument
+  string list = squant;
+  char * next = NULL;
+  char * tk = strtok_r(&list[0], " \t\n", &next);
   string tkk="", quant="", unit = "";
   size_t first = 0, last = 0;
 
+  // In case of error, leave everything as it was
+  Quantity_t prev_quantities = quantities_;
 # ifdef HAVE_UDUNITS
+  SmartPointer<Units::Converter> prev_intensity   = intensity_converter_;
+  SmartPointer<Units::Converter> prev_spectrum    = spectrum_converter_;
+  SmartPointer<Units::Converter> prev_binspectrum = binspectrum_converter_;
   if (screen_) screen_ -> mapPixUnit();
 # endif
 
+  quantities_=0;
+  try {
   while (tk != NULL) {
     tkk = tk;
     first = tkk.find("[");
@@ -888,7 +897,17 @@ void Scenery::requestedQuantitiesString(std::string const &squant) {
     else if (!strcmp(tk, "User5"))
       quantities_ |= GYOTO_QUANTITY_USER5;
     else GYOTO_ERROR("ScenerySubcontractor(): unknown quantity");
-    tk = strtok(NULL, " \t\n");
+    tk = strtok_r(NULL, " \t\n", &next);
+  }
+  } catch (...) {
+    quantities_ = prev_quantities;
+#   ifdef HAVE_UDUNITS
+    intensity_converter_   = prev_intensity;
+    spectrum_converter_    = prev_spectrum;
+    binspectrum_converter_ = prev_binspectrum;
+    if (screen_) screen_ -> unmapPixUnit();
+#   endif
+    throw;
   }
 
 # ifdef HAVE_UDUNITS
-- 
2.43.0


From 7aaa30904301d3b35a2724cf494931bac0bea756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:34 +0000
Subject: [PATCH 19/63] fix: asking for a freq, freqlog or wavelog spectrometer
 gave a wave one

---
 lib/Spectrometer.C | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/lib/Spectrometer.C b/lib/Spectrometer.C
index d0bfd2d..84d1357 100644
--- a/lib/Spectrometer.C
+++ b/lib/Spectrometer.C
@@ -50,14 +50,40 @@ GYOTO_PROPERTY_END(Spectrometer::Generic, Object::properties)
 ///
 
 Register::Entry* Gyoto::Spectrometer::Register_ = NULL;
+// Several kinds are implemented by Uniform: make sure the one that was
+// asked for is built, also without a FactoryMessenger to tell.
+static SmartPointer<Spectrometer::Generic>
+makeUniform(std::string const &kind,
+	    FactoryMessenger* fmp, std::vector<std::string> const &plugins) {
+  SmartPointer<Uniform> spectro = new Uniform();
+  spectro -> kind(kind);
+  spectro -> plugins(plugins);
+#ifdef GYOTO_USE_XERCES
+  if (fmp) spectro -> setParameters(fmp);
+#endif
+  return spectro;
+}
+static SmartPointer<Spectrometer::Generic>
+makeWave(FactoryMessenger* fmp, std::vector<std::string> const &plugins)
+{ return makeUniform("wave", fmp, plugins); }
+static SmartPointer<Spectrometer::Generic>
+makeWaveLog(FactoryMessenger* fmp, std::vector<std::string> const &plugins)
+{ return makeUniform("wavelog", fmp, plugins); }
+static SmartPointer<Spectrometer::Generic>
+makeFreq(FactoryMessenger* fmp, std::vector<std::string> const &plugins)
+{ return makeUniform("freq", fmp, plugins); }
+static SmartPointer<Spectrometer::Generic>
+makeFreqLog(FactoryMessenger* fmp, std::vector<std::string> const &plugins)
+{ return makeUniform("freqlog", fmp, plugins); }
+
 void Spectrometer::initRegister() {
   if (Gyoto::Spectrometer::Register_) delete Gyoto::Spectrometer::Register_;
   Gyoto::Spectrometer::Register_ = NULL;
   // statically fill the register
-  Gyoto::Spectrometer::Register("wave",    &(Subcontractor<Uniform>));
-  Gyoto::Spectrometer::Register("wavelog", &(Subcontractor<Uniform>));
-  Gyoto::Spectrometer::Register("freq",    &(Subcontractor<Uniform>));
-  Gyoto::Spectrometer::Register("freqlog", &(Subcontractor<Uniform>));
+  Gyoto::Spectrometer::Register("wave",    &makeWave);
+  Gyoto::Spectrometer::Register("wavelog", &makeWaveLog);
+  Gyoto::Spectrometer::Register("freq",    &makeFreq);
+  Gyoto::Spectrometer::Register("freqlog", &makeFreqLog);
   Gyoto::Spectrometer::Register("Complex", &(Subcontractor<Complex>));
 }
 
-- 
2.43.0


From cfc1364a4cde7699c16f235ebe0cfc6aee314157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:33 +0000
Subject: [PATCH 20/63] fix: reading InitCoord of a worldline not initialised
 yet returned uninitialised memory

---
 lib/Worldline.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index c5217d7..e590560 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -399,11 +399,12 @@ void Worldline::initCoord(std::vector<double> const &v) {
 
 std::vector<double> Worldline::initCoord() const {
   std::vector<double> coord(8, 0.);
+  if (imin_>imax_) return coord; // not set yet
   coord[0] = x0_[i0_];
   coord[1] = x1_[i0_];
   coord[2] = x2_[i0_];
   coord[3] = x3_[i0_];
-  coord[4] = (i0_<=imax_ && imin_<=i0_)?x0dot_[i0_]:0.;
+  coord[4] = x0dot_[i0_];
   coord[5] = x1dot_[i0_];
   coord[6] = x2dot_[i0_];
   coord[7] = x3dot_[i0_];
-- 
2.43.0


From 93b1d6ca6306bb5ab0cf07b5afb8b7aaeeed6560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:30 +0000
Subject: [PATCH 21/63] fix: a Screen written as the root of an XML file could
 not be read

---
 lib/Factory.C | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/Factory.C b/lib/Factory.C
index a41deb0..d2c06b5 100644
--- a/lib/Factory.C
+++ b/lib/Factory.C
@@ -507,24 +507,27 @@ SmartPointer<Scenery> Factory::scenery () {
 
 SmartPointer<Gyoto::Screen> Factory::screen(){
   if (!screen_) {
-    DOMXPathResult* result;
     DOMElement *ScreenDOM;
-    result=doc_->evaluate(
+    if (kind_=="Screen") {
+      ScreenDOM = root_;
+    } else {
+      DOMXPathResult* result;
+      result=doc_->evaluate(
 			  X(("/"+kind_+"/Screen").c_str()),
 			  root_,
 			  resolver_,
 			  DOMXPathResult::ORDERED_NODE_SNAPSHOT_TYPE,
 			  NULL);
-    if (!result->getSnapshotLength()) {
+      if (!result->getSnapshotLength()) {
+	delete result;
+	return NULL;
+      }
+      ScreenDOM = static_cast< xercesc::DOMElement* >(result -> getNodeValue());
       delete result;
-      return NULL;
     }
-    
-    ScreenDOM = static_cast< xercesc::DOMElement* >(result -> getNodeValue());
-    
+
     FactoryMessenger fm ( this, ScreenDOM );
     screen_ = Screen::Subcontractor(&fm);
-    delete result;
   }
   return screen_;
 }
-- 
2.43.0


From 7227da440a2769a8d5309c54ffedcd8ed2289eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:42 +0000
Subject: [PATCH 22/63] fix: XML written for a Blob could not be read back

pi/2 with 15 digits was not recognised as the equator, and Init4Coord
was checked before BlobMotionType was read. A refused Init4Coord was
kept.
---
 lib/Blob.C | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/Blob.C b/lib/Blob.C
index a260954..81223eb 100644
--- a/lib/Blob.C
+++ b/lib/Blob.C
@@ -45,12 +45,13 @@ GYOTO_PROPERTY_BOOL(Blob,
 GYOTO_PROPERTY_BOOL(Blob,
 		    SpaceGaussianModulated, NoSpaceGaussianModulated,
 		    spaceGaussianModulated)
+// Init4Coord is checked against BlobMotionType: must come after it (in XML)
+GYOTO_PROPERTY_STRING(Blob, BlobMotionType, blobMotionType,
+		      "\"Equatorial\" (default), \"HelicalConical\", or \"HelicalCylindrical\".")
 GYOTO_PROPERTY_VECTOR_DOUBLE(Blob, Init4Coord, init4Coord,
 			     "Initial 4-position vector of the Blob, eg (t,r,theta,phi)")
 GYOTO_PROPERTY_VECTOR_DOUBLE(Blob, Init3Velo, init3Velo,
 			     "Initial coordinate 3-velocity of the Blob, eg (dr/dt,dtheta/dt,dphi/dt).")
-GYOTO_PROPERTY_STRING(Blob, BlobMotionType, blobMotionType,
-		      "\"Equatorial\" (default), \"HelicalConical\", or \"HelicalCylindrical\".")
 GYOTO_PROPERTY_DOUBLE_UNIT(Blob, NumberDensity, numberDensity,
 			   "cgs number density, constant through blob")
 GYOTO_PROPERTY_DOUBLE(Blob, Temperature, temperature,
@@ -162,13 +163,14 @@ void Blob::init4Coord(std::vector<double> const &v) {
   size_t n = v.size();
   if (n!=4)
     GYOTO_ERROR("Initial coordinate should have 4 entries.");
-  for (size_t i=0; i<n; ++i) {
-    init4Coord_[i]=v[i];
-  }
   if (blobMotionType_=="HelicalCylindrical" or blobMotionType_=="Equatorial"){
-    if (init4Coord_[2] != M_PI/2.)
+    // pi/2 may come from a file with a finite number of digits
+    if (fabs(v[2] - M_PI/2.) > 1e-12)
       GYOTO_ERROR("Equatorial and cylindrical motions must start at equator");
   }
+  for (size_t i=0; i<n; ++i) {
+    init4Coord_[i]=v[i];
+  }
 }
 std::vector<double> Blob::init4Coord() const {
   std::vector<double> v(4, 0.);
@@ -832,7 +834,7 @@ void Blob::getCartesian(double const * const dates, size_t const n_dates,
     }
   else if (blobMotionType_=="Equatorial") // Equatorial orbit
     {
-      if (init4Coord_[2]!=M_PI/2.)
+      if (fabs(init4Coord_[2] - M_PI/2.) > 1e-12)
 	cout << "Warning input theta value incompatible with 'Equatorial' motion. Theta fixed to pi/2." << endl;
       
       r = init4Coord_[1];
-- 
2.43.0


From 6bfcbbd5f1075d2e9316f992efe1c8dab4c72471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:02 +0000
Subject: [PATCH 23/63] fix: a Screen with its metric, or with a spectrometer
 from a plug-in, could not be read back

---
 lib/Screen.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Screen.C b/lib/Screen.C
index 4652084..eef1ab8 100644
--- a/lib/Screen.C
+++ b/lib/Screen.C
@@ -1409,7 +1409,9 @@ SmartPointer<Screen> Screen::Subcontractor(FactoryMessenger* fmp) {
     GYOTO_DEBUG_EXPR(unit);
     GYOTO_ENDIF_DEBUG
 #   endif
-    if      (name=="Time")
+    if      (name=="Metric")
+      {scr -> metric(fmp->metric());}
+    else if (name=="Time")
       {tobs_tmp = Gyoto::atof(tc); tunit=unit; tobs_found=1;}
     else if (name=="Position") {
       if (FactoryMessenger::parseArray(content, pos, 4) != 4)
@@ -1426,6 +1428,7 @@ SmartPointer<Screen> Screen::Subcontractor(FactoryMessenger* fmp) {
       fov = Gyoto::atof(tc); fov_unit=unit; fov_found=1;
     }
     else if (name=="Spectrometer") {
+      plugin = Gyoto::split(fmp->getAttribute("plugin"), ",");
       scr ->
 	spectrometer((Spectrometer::getSubcontractor(fmp->getAttribute("kind"),
 						     plugin))
-- 
2.43.0


From c58ce8b0e05afd23d9a3d667503afe7493ee796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:44 +0000
Subject: [PATCH 24/63] fix: XML of a Photon with an Astrobj lost the metric;
 DBL_MAX in vectors was read back as inf

---
 include/GyotoPhoton.h |  1 +
 lib/Factory.C         | 13 +++++++------
 lib/Photon.C          |  7 +++++++
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/GyotoPhoton.h b/include/GyotoPhoton.h
index 86a1106..10198a3 100644
--- a/include/GyotoPhoton.h
+++ b/include/GyotoPhoton.h
@@ -282,6 +282,7 @@ class Gyoto::Photon
 
 #ifdef GYOTO_USE_XERCES
   virtual void setParameters(FactoryMessenger *fmp) ;
+  virtual void fillElement(FactoryMessenger *fmp) const ;
   static SmartPointer<Photon> Subcontractor(Gyoto::FactoryMessenger*);
 #endif
 
diff --git a/lib/Factory.C b/lib/Factory.C
index d2c06b5..7c6bf47 100644
--- a/lib/Factory.C
+++ b/lib/Factory.C
@@ -858,13 +858,14 @@ void Factory::setParameter(std::string name,
   size_t n=val.size();
 
   if (n) {
-    ostringstream ss;
-    ss.imbue(Cloc); // set local to 'C'
-    ss << setprecision(GYOTO_PREC) << setw(GYOTO_WIDTH) << val[0];
-    for (size_t i=1; i<n; ++i) {
-      ss << " " << setprecision(GYOTO_PREC) << setw(GYOTO_WIDTH) << val[i];
+    string txt;
+    char val_string[dvalLength];
+    for (size_t i=0; i<n; ++i) {
+      d2txt(val_string, val[i]);
+      if (i) txt += " ";
+      txt += val_string;
     }
-    el->appendChild( doc_->createTextNode(X(ss.str().c_str())) );
+    el->appendChild( doc_->createTextNode(X(txt.c_str())) );
   }
   if (child) *child = new FactoryMessenger(this, el);
 
diff --git a/lib/Photon.C b/lib/Photon.C
index 1021a89..12a998c 100644
--- a/lib/Photon.C
+++ b/lib/Photon.C
@@ -1273,6 +1273,13 @@ void Photon::setParameters(FactoryMessenger* fmp) {
   }
 }
 
+void Photon::fillElement(FactoryMessenger *fmp) const {
+  // The metric is shared with the Astrobj and is written only once: it
+  // must be a child of the Photon element, that's where it is read.
+  if (metric_) fmp -> metric(metric_);
+  Object::fillElement(fmp);
+}
+
 SmartPointer<Photon> Gyoto::Photon::Subcontractor(FactoryMessenger* fmp) {
   SmartPointer<Photon> ph = new Photon();
   ph -> setParameters(fmp);
-- 
2.43.0


From 7ee21d47758dc894a988ce2d609289266dab791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:17 +0000
Subject: [PATCH 25/63] fix: cloning a RezzollaZhidenko metric gave Rmb the
 value of Rms

---
 lib/RezzollaZhidenko.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/RezzollaZhidenko.C b/lib/RezzollaZhidenko.C
index 7f01d9a..5de4427 100644
--- a/lib/RezzollaZhidenko.C
+++ b/lib/RezzollaZhidenko.C
@@ -100,7 +100,7 @@ Gyoto::Metric::RezzollaZhidenko::RezzollaZhidenko()
 
 Gyoto::Metric::RezzollaZhidenko::RezzollaZhidenko(const RezzollaZhidenko & orig)
   : Generic(orig),
-    epsilon_(orig.epsilon_), rms_(orig.rms_), rmb_(orig.rms_), aparam_(NULL), bparam_(NULL)
+    epsilon_(orig.epsilon_), rms_(orig.rms_), rmb_(orig.rmb_), aparam_(NULL), bparam_(NULL)
 {
   GYOTO_DEBUG << endl;
   aparam_ = new double[GYOTO_NBPARAM_MAX];
-- 
2.43.0


From e8d058f05ed68509e347f389fd2c1f84e0a019ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:11 +0000
Subject: [PATCH 26/63] fix: cloning a KonoplyaRezzollaZhidenko metric gave
 spin^3 the value of spin^4

---
 lib/KonoplyaRezzollaZhidenko.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index f7f7c2f..c058b15 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -148,7 +148,7 @@ Gyoto::Metric::KonoplyaRezzollaZhidenko::KonoplyaRezzollaZhidenko()
 
 Gyoto::Metric::KonoplyaRezzollaZhidenko::KonoplyaRezzollaZhidenko(const KonoplyaRezzollaZhidenko & orig)
   : Generic(orig),
-    spin_(orig.spin_), spin2_(orig.spin2_), spin3_(orig.spin4_), spin4_(orig.spin4_),
+    spin_(orig.spin_), spin2_(orig.spin2_), spin3_(orig.spin3_), spin4_(orig.spin4_),
     rms_(orig.rms_), deltashorizon_(NULL), deltasasymptotics_(NULL)
 {
   GYOTO_DEBUG << endl;
-- 
2.43.0


From 2d91b24fa66e58320fa61bcb3c59902a105d5793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:21 +0000
Subject: [PATCH 27/63] fix: a clone of a Shift metric shared (and unhooked)
 the underlying metric of its original

---
 include/GyotoShift.h |  1 +
 lib/Shift.C          | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/GyotoShift.h b/include/GyotoShift.h
index 184d6c2..6f59c76 100644
--- a/include/GyotoShift.h
+++ b/include/GyotoShift.h
@@ -55,6 +55,7 @@ class Gyoto::Metric::Shift
   // This is the bare minimum of what a Metric class must implement:
   GYOTO_OBJECT;
   Shift();
+  Shift(const Shift &o);
   virtual ~Shift();
   virtual Shift* clone() const ;
 
diff --git a/lib/Shift.C b/lib/Shift.C
index 7d7c006..2cfcc7a 100644
--- a/lib/Shift.C
+++ b/lib/Shift.C
@@ -54,6 +54,17 @@ Shift::Shift() :
 Generic(GYOTO_COORDKIND_CARTESIAN, "Shift"),
   submet_(NULL)
 {for (int i=0; i<4; ++i) offset_[i]=0.;}
+Shift::Shift(const Shift &o) :
+  Generic(o),
+  Hook::Listener(o),
+  submet_(NULL)
+{
+  for (int i=0; i<4; ++i) offset_[i]=o.offset_[i];
+  if (o.submet_) {
+    submet_=o.submet_->clone();
+    submet_->hook(this);
+  }
+}
 Shift* Shift::clone() const { return new Shift(*this); }
 Shift::~Shift(){
   if (submet_) submet_->unhook(this);
-- 
2.43.0


From 3cc180e786a1aea89f183a86c57854a3699b5bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:58 +0000
Subject: [PATCH 28/63] fix: settings refused as out of range or of the wrong
 size were applied all the same, or read past the vector

---
 lib/DeformedTorus.C            |  9 ++++++---
 lib/FreeStar.C                 |  6 ++++++
 lib/Jet.C                      | 16 ++++++++--------
 lib/Kerr2PN.C                  |  5 +++--
 lib/KonoplyaRezzollaZhidenko.C | 12 ++++++------
 lib/OscilTorus.C               |  5 +++--
 lib/PageThorneDisk.C           | 12 +++++++-----
 lib/Plasmoid.C                 | 14 +++++++++-----
 lib/PolishDoughnut.C           |  4 ++--
 lib/PowerLawSpectrum.C         |  2 ++
 lib/RezzollaZhidenko.C         | 14 ++++++--------
 lib/ThickDisk.C                |  7 +++----
 lib/UniformSpectrometer.C      |  2 +-
 13 files changed, 62 insertions(+), 46 deletions(-)

diff --git a/lib/DeformedTorus.C b/lib/DeformedTorus.C
index e54cf4d..bc574b3 100644
--- a/lib/DeformedTorus.C
+++ b/lib/DeformedTorus.C
@@ -30,8 +30,11 @@ GYOTO_PROPERTY_END(DeformedTorus, Standard::properties)
 GYOTO_PROPERTY_ACCESSORS(DeformedTorus, SmartPointer<Spectrum::Generic>,
 			 spectrum_, spectrum)
 GYOTO_PROPERTY_ACCESSORS(DeformedTorus, double, c_, largeRadius)
-GYOTO_PROPERTY_ACCESSORS_SPECIAL(DeformedTorus, double, param_beta_, beta,
-				 if (param_beta_>=1.) GYOTO_ERROR("In DeformedTorus.C: beta should be << 1"); , )
+void DeformedTorus::beta(double b) {
+  if (b>=1.) GYOTO_ERROR("In DeformedTorus.C: beta should be << 1");
+  param_beta_=b;
+}
+double DeformedTorus::beta() const {return param_beta_;}
 GYOTO_PROPERTY_ACCESSORS(DeformedTorus, double,
 			 param_beta_st_, betaSt)
 GYOTO_PROPERTY_ACCESSORS(DeformedTorus, double, param_eta_, eta)
@@ -282,7 +285,7 @@ void DeformedTorus::getVelocity(double const pos[4], double vel[4])
 
 void DeformedTorus::metric(Gyoto::SmartPointer<Gyoto::Metric::Generic> met)
 {
-  if (met->kind() != "KerrBL")
+  if (met && met->kind() != "KerrBL")
     GYOTO_ERROR("DeformedTorus::metric(): only KerrBL, please");
   //if (gg_) gg_ -> unhook(this);
   gg_ = SmartPointer<Metric::KerrBL>(met);
diff --git a/lib/FreeStar.C b/lib/FreeStar.C
index 065752a..4705ba0 100644
--- a/lib/FreeStar.C
+++ b/lib/FreeStar.C
@@ -91,6 +91,8 @@ string FreeStar::className_l() const { return  string("freeStar"); }
 
 
 void FreeStar::initPosition(std::vector<double> const &v) {
+  if (v.size() != 4)
+    GYOTO_ERROR("FreeStar initial position needs exactly 4 tokens");
   posIni_[0] = v[0];
   posIni_[1] = v[1];
   posIni_[2] = v[2];
@@ -108,6 +110,8 @@ std::vector<double> FreeStar::initPosition() const {
 }
 
 void FreeStar::initVelocity(std::vector<double> const &v) {
+  if (v.size() != 3)
+    GYOTO_ERROR("FreeStar initial velocity needs exactly 3 tokens");
   if (!posSet_)
     GYOTO_ERROR("In FreeStar::initVelocity initial Position not defined");
   double vel[4] = {1., v[0], v[1], v[2]};
@@ -137,6 +141,8 @@ std::vector<double> FreeStar::initVelocity() const {
 }
 
 void FreeStar::initCoord(std::vector<double> const &v) {
+  if (v.size() != 8)
+    GYOTO_ERROR("FreeStar initial coordinates need exactly 8 tokens");
   posIni_[0] = v[0];
   posIni_[1] = v[1];
   posIni_[2] = v[2];
diff --git a/lib/Jet.C b/lib/Jet.C
index b7c7dc2..9346d79 100644
--- a/lib/Jet.C
+++ b/lib/Jet.C
@@ -73,40 +73,40 @@ void Jet::outflowing(bool out) {outflowing_=out;}
 bool Jet::outflowing() const { return outflowing_; }
 // for parabolic:
 void Jet::jetShapeInnerParabolaParam(double param) {
-  jetShapeInnerParabolaParam_=param;
   if (jetShapeOuterParabolaParam_ != -1.){ // default parabola value is -1
-    if (jetShapeOuterParabolaParam_ > jetShapeInnerParabolaParam_)
+    if (jetShapeOuterParabolaParam_ > param)
       GYOTO_ERROR("The outer parabola parameter cannot be bigger "
 		  "than the inner one");
   }  
+  jetShapeInnerParabolaParam_=param;
 }
 double Jet::jetShapeInnerParabolaParam() const {return jetShapeInnerParabolaParam_;}
 void Jet::jetShapeOuterParabolaParam(double param) {
-  jetShapeOuterParabolaParam_=param;
   if (jetShapeInnerParabolaParam_ != -1.){ // default parabola value is -1
-    if (jetShapeOuterParabolaParam_ > jetShapeInnerParabolaParam_)
+    if (param > jetShapeInnerParabolaParam_)
       GYOTO_ERROR("The outer parabola parameter cannot be bigger "
 		  "than the inner one");
   }  
+  jetShapeOuterParabolaParam_=param;
 }
 double Jet::jetShapeOuterParabolaParam() const {return jetShapeOuterParabolaParam_;}
 // for conical:
 void Jet::jetOuterOpeningAngle(double ang) {
-  jetOuterOpeningAngle_=ang;
   if (jetInnerOpeningAngle_ != -1.){ // default angle value is -1
-    if (jetOuterOpeningAngle_ < jetInnerOpeningAngle_)
+    if (ang < jetInnerOpeningAngle_)
     GYOTO_ERROR("The outer opening angle cannot be smaller "
 		"than the inner opening angle");
   }
+  jetOuterOpeningAngle_=ang;
 }
 double Jet::jetOuterOpeningAngle()const{return jetOuterOpeningAngle_;}
 void Jet::jetInnerOpeningAngle(double ang) {
-  jetInnerOpeningAngle_=ang;
   if (jetOuterOpeningAngle_ != -1.){ // default angle value is -1
-    if (jetOuterOpeningAngle_ < jetInnerOpeningAngle_)
+    if (jetOuterOpeningAngle_ < ang)
       GYOTO_ERROR("The outer opening angle cannot be smaller "
 		  "than the inner opening angle");
   }
+  jetInnerOpeningAngle_=ang;
 }
 double Jet::jetInnerOpeningAngle()const{return jetInnerOpeningAngle_;}
 // for both:
diff --git a/lib/Kerr2PN.C b/lib/Kerr2PN.C
index 82f6fae..536bfed 100644
--- a/lib/Kerr2PN.C
+++ b/lib/Kerr2PN.C
@@ -75,12 +75,13 @@ void Kerr2PN::spin(const double spin) {
   } // else they are independent parameters
 }
 void Kerr2PN::quadrupole(const double QQ) {
+  if (quadrupole_is_kerr_ && QQ>0.)
+    GYOTO_ERROR("Kerr quadrupole should be <0!");
+
   Q_=QQ;
 
   if (quadrupole_is_kerr_){
     // If quadrupole tied to Kerr spin, update spin
-    if (Q_>0.)
-      GYOTO_ERROR("Kerr quadrupole should be <0!");
     spin_=pow(-Q_,0.5); // Q_ = -spin^2 in geometrized units
   } // else they are independent parameters
 }
diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index c058b15..d7be800 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -69,28 +69,27 @@ void KonoplyaRezzollaZhidenko::deltashorizon(std::vector<double> const &v) {
 	    
   double r0 = Definer0(), r02 = r0*r0;
   for (size_t i=0; i<n; ++i) {
-    deltashorizon_[i]=v[i];
     switch(i) {
       // See equations 9-12 of Nampalliwar et al. 2021 (PRD 102, 124071) for the theoretical allowed individual ranges
-      case 0: if (deltashorizon_[i] < (4.*r0-3.*r02-spin2_)/r02) 
+      case 0: if (v[i] < (4.*r0-3.*r02-spin2_)/r02) 
               GYOTO_ERROR("In KonoplyaRezzollaZhidenko: Restriction range not respected for δ1");
               break;
       case 1: 
       case 2: if (spin_ > 0.){
-                if (deltashorizon_[i] < -4./spin3_*(1.-sqrt(1.-spin2_))) 
+                if (v[i] < -4./spin3_*(1.-sqrt(1.-spin2_))) 
                 GYOTO_ERROR("In KonoplyaRezzollaZhidenko: Restriction range not respected for δ2 or δ3");
               }
               else if (spin_ < 0.){
-                if (deltashorizon_[i] > -4./spin3_*(1.-sqrt(1.-spin2_))) 
+                if (v[i] > -4./spin3_*(1.-sqrt(1.-spin2_))) 
                 GYOTO_ERROR("In KonoplyaRezzollaZhidenko: Restriction range not respected for δ2 or δ3");
               }
               else GYOTO_ERROR("null spin case not supported");
               break;
        case 3:
-       case 4: if (deltashorizon_[i] < -1.) 
+       case 4: if (v[i] < -1.) 
               GYOTO_ERROR("In KonoplyaRezzollaZhidenko: Restriction range not respected for δ4 or δ5");
             break;
-       case 5: if (deltashorizon_[i] > r02/(4.-spin2_)) 
+       case 5: if (v[i] > r02/(4.-spin2_)) 
               GYOTO_ERROR("In KonoplyaRezzollaZhidenko: Restriction range not respected for δ6");
               // Irene: Given the disagreement in the literature, I don't know if this restriction range still applies...!!!
             break;
@@ -98,6 +97,7 @@ void KonoplyaRezzollaZhidenko::deltashorizon(std::vector<double> const &v) {
 			    TOSTRING(GYOTO_NB_DELTAHOR_MAX) "?"); 
     }
   }
+  for (size_t i=0; i<n; ++i) deltashorizon_[i]=v[i];
   for (size_t i=n; i<GYOTO_NB_DELTAHOR_MAX; ++i) deltashorizon_[i]=0.;
 }
 std::vector<double> KonoplyaRezzollaZhidenko::deltashorizon() const {
diff --git a/lib/OscilTorus.C b/lib/OscilTorus.C
index 9c28938..0e52f2f 100644
--- a/lib/OscilTorus.C
+++ b/lib/OscilTorus.C
@@ -351,8 +351,9 @@ void OscilTorus::metric(Gyoto::SmartPointer<Gyoto::Metric::Generic> met)
     gg_=NULL;
     return;
   }
-  kerrbl_ = Gyoto::SmartPointer<Gyoto::Metric::KerrBL>(met);
-  if (!kerrbl_) GYOTO_ERROR("OscilTorus::metric(): only KerrBL, please");
+  Gyoto::SmartPointer<Gyoto::Metric::KerrBL> kerrbl(met);
+  if (!kerrbl) GYOTO_ERROR("OscilTorus::metric(): only KerrBL, please");
+  kerrbl_ = kerrbl;
   if (gg_) gg_->unhook(this);
   Standard::metric(met);
   gg_->hook(this);
diff --git a/lib/PageThorneDisk.C b/lib/PageThorneDisk.C
index 5b4d861..d8131d2 100644
--- a/lib/PageThorneDisk.C
+++ b/lib/PageThorneDisk.C
@@ -115,14 +115,16 @@ void PageThorneDisk::updateSpin() {
 }
 
 void PageThorneDisk::metric(SmartPointer<Metric::Generic> gg) {
+  if (gg) {
+    string kin = gg->kind();
+    if (kin != "KerrBL" && kin != "KerrKS")
+      GYOTO_ERROR
+	("PageThorneDisk::metric(): metric must be KerrBL or KerrKS");
+  }
   if (gg_) gg_->unhook(this);
-  string kin = gg->kind();
-  if (kin != "KerrBL" && kin != "KerrKS")
-    GYOTO_ERROR
-      ("PageThorneDisk::metric(): metric must be KerrBL or KerrKS");
   ThinDisk::metric(gg);
   updateSpin();
-  gg->hook(this);
+  if (gg) gg->hook(this);
 }
 
 double PageThorneDisk::emission(double nu_em, double dsem,
diff --git a/lib/Plasmoid.C b/lib/Plasmoid.C
index 3c977c2..a2eda9a 100644
--- a/lib/Plasmoid.C
+++ b/lib/Plasmoid.C
@@ -462,6 +462,8 @@ void Plasmoid::metric(SmartPointer<Metric::Generic> gg) {
 }
 
 void Plasmoid::initPosition(std::vector<double> const &v) {
+  if (v.size() != 4)
+    GYOTO_ERROR("Plasmoid initial position needs exactly 4 tokens");
   posIni_[0] = v[0];
   posIni_[1] = v[1];
   posIni_[2] = v[2];
@@ -479,12 +481,11 @@ std::vector<double> Plasmoid::initPosition() const {
 }
 
 void Plasmoid::initVelocity(std::vector<double> const &v) {
+  if (v.size() != 3)
+    GYOTO_ERROR("Plasmoid initial velocity needs exactly 3 tokens");
   if (!posSet_)
   	GYOTO_ERROR("In Plasmoid::initVelocity initial Position not defined");
-  fourveldt_[1] = v[0];
-  fourveldt_[2] = v[1];
-  fourveldt_[3] = v[2];
-  fourveldt_[0] = 1.;
+  double vel[4] = {1., v[0], v[1], v[2]};
 
   double sum = 0;
   double g[4][4];
@@ -493,12 +494,13 @@ void Plasmoid::initVelocity(std::vector<double> const &v) {
 
   for (int i=0;i<4;++i) {
     for (int j=0;j<4;++j) {
-      sum+=g[i][j]*fourveldt_[i]*fourveldt_[j];
+      sum+=g[i][j]*vel[i]*vel[j];
     }
   }
   if (sum>=0)
  	GYOTO_ERROR("In Plasmoid::initVelocity Initial Velocity over C");
 
+  for (int i=0;i<4;++i) fourveldt_[i] = vel[i];
 }
 
 std::vector<double> Plasmoid::initVelocity() const {
@@ -510,6 +512,8 @@ std::vector<double> Plasmoid::initVelocity() const {
 }
 
 void Plasmoid::initCoord(std::vector<double> const &v) {
+  if (v.size() != 8)
+    GYOTO_ERROR("Plasmoid initial coordinates need exactly 8 tokens");
   posIni_[0] = v[0];
   posIni_[1] = v[1];
   posIni_[2] = v[2];
diff --git a/lib/PolishDoughnut.C b/lib/PolishDoughnut.C
index 5f7c8c3..c73cf07 100644
--- a/lib/PolishDoughnut.C
+++ b/lib/PolishDoughnut.C
@@ -267,13 +267,13 @@ void PolishDoughnut::lambda(double lam) {
     }
 
 void PolishDoughnut::angmomrinner(std::vector<double> const &v) {
+  if (v.size() != 2)
+    GYOTO_ERROR("Only 2 arguments to define l0 and rin");
   defangmomrinner_=1;
   if (rochelobefilling_){
     GYOTO_WARNING << "Setting AngMomRinner overrides Lambda previously set\n";
     rochelobefilling_=0;
   }
-  if (v.size() != 2)
-    GYOTO_ERROR("Only 2 arguments to define l0 and rin");
   l0_ = v[0];
   rintorus_ = v[1];
   r_cusp_=rintorus_; // NB: the cusp is most probably not at this radius; however we need to define it to avoid having cases where operator() returns "inside torus" when the photon actually is in the funnel at r<r_cusp_. Defining r_cusp_ that way is okay, we won't miss any part of the real torus.
diff --git a/lib/PowerLawSpectrum.C b/lib/PowerLawSpectrum.C
index 68bb197..48d0405 100644
--- a/lib/PowerLawSpectrum.C
+++ b/lib/PowerLawSpectrum.C
@@ -55,6 +55,8 @@ void Spectrum::PowerLaw::constant(double c) { constant_ = c; }
 double Spectrum::PowerLaw::exponent() const { return exponent_; }
 void Spectrum::PowerLaw::exponent(double c) { exponent_ = c; }
 void Spectrum::PowerLaw::cutoff(std::vector<double> const &v, std::string const &u) {
+  if (v.size() != 2)
+    GYOTO_ERROR("CutOff needs exactly two cut-off frequencies");
   cutoff({Units::ToHerz(v[0], u), Units::ToHerz(v[1], u)});
 }
 void Spectrum::PowerLaw::cutoff(std::vector<double> const &v) {
diff --git a/lib/RezzollaZhidenko.C b/lib/RezzollaZhidenko.C
index 5de4427..8b18519 100644
--- a/lib/RezzollaZhidenko.C
+++ b/lib/RezzollaZhidenko.C
@@ -54,10 +54,9 @@ void RezzollaZhidenko::aparam(std::vector<double> const &v) {
   if (n>GYOTO_NBPARAM_MAX)
     GYOTO_ERROR("In RezzollaZhidenko: choose at most "
 	       STRINGIFY(GYOTO_NBPARAM_MAX) " parameters");
-  for (size_t i=0; i<n; ++i) {
-    aparam_[i]=v[i];
-    if (aparam_[i]<0.) GYOTO_ERROR("In RezzollaZhidenko: param < 0!");
-  }
+  for (size_t i=0; i<n; ++i)
+    if (v[i]<0.) GYOTO_ERROR("In RezzollaZhidenko: param < 0!");
+  for (size_t i=0; i<n; ++i) aparam_[i]=v[i];
   for (size_t i=n; i<GYOTO_NBPARAM_MAX; ++i) aparam_[i]=0.;
 }
 std::vector<double> RezzollaZhidenko::aparam() const {
@@ -70,10 +69,9 @@ void RezzollaZhidenko::bparam(std::vector<double> const &v) {
   if (n>GYOTO_NBPARAM_MAX)
     GYOTO_ERROR("In RezzollaZhidenko: choose at most "
 	       STRINGIFY(GYOTO_NBPARAM_MAX) " parameters");
-  for (size_t i=0; i<n; ++i) {
-    bparam_[i]=v[i];
-    if (bparam_[i]<0.) GYOTO_ERROR("In RezzollaZhidenko: param < 0!");
-  }
+  for (size_t i=0; i<n; ++i)
+    if (v[i]<0.) GYOTO_ERROR("In RezzollaZhidenko: param < 0!");
+  for (size_t i=0; i<n; ++i) bparam_[i]=v[i];
   for (size_t i=n; i<GYOTO_NBPARAM_MAX; ++i) bparam_[i]=0.;
 }
 std::vector<double> RezzollaZhidenko::bparam() const {
diff --git a/lib/ThickDisk.C b/lib/ThickDisk.C
index 52a14a9..ee5c8b7 100644
--- a/lib/ThickDisk.C
+++ b/lib/ThickDisk.C
@@ -88,13 +88,12 @@ void ThickDisk::veloParam(std::vector<double> const &v) {
   size_t nn = v.size();
   if (nn!=2)
     GYOTO_ERROR("In ThickDisk: choose exactly 2 velocity parameters");
-  alpha_veloparam_ = v[0];
-  beta_veloparam_  = v[1];
-  if (alpha_veloparam_<0. || alpha_veloparam_>1.
-      || beta_veloparam_<0. || beta_veloparam_>1.){
+  if (v[0]<0. || v[0]>1. || v[1]<0. || v[1]>1.){
     GYOTO_ERROR("In ThickDisk: velocity parameters should be "
 		"between 0 and 1!");
   }
+  alpha_veloparam_ = v[0];
+  beta_veloparam_  = v[1];
 }
 std::vector<double> ThickDisk::veloParam() const {
   std::vector<double> v(2, 0.);
diff --git a/lib/UniformSpectrometer.C b/lib/UniformSpectrometer.C
index 2c711b0..7863781 100644
--- a/lib/UniformSpectrometer.C
+++ b/lib/UniformSpectrometer.C
@@ -185,7 +185,6 @@ void Uniform::kindid(kind_t k) {
 }
 
 void Uniform::kind(std::string const &str) {
-  kind_ = str;
   kind_t s;
 
   if (str == "freq"   ) s = FreqKind;
@@ -196,6 +195,7 @@ void Uniform::kind(std::string const &str) {
     GYOTO_ERROR("unknown Spectrometer::Uniform kind"); s=NULL;
   }
 
+  kind_ = str;
   kindid_ = s;
   reset_();
 }
-- 
2.43.0


From 2cd533bff1f3298eadb11b95cbf8693819523e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:58 +0000
Subject: [PATCH 29/63] fix: a shorter ModelParam kept the last values of the
 previous one

---
 lib/StochasticThinDisk.C | 1 +
 lib/ThinDiskProfile.C    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/StochasticThinDisk.C b/lib/StochasticThinDisk.C
index d7493a2..a3e8032 100644
--- a/lib/StochasticThinDisk.C
+++ b/lib/StochasticThinDisk.C
@@ -117,6 +117,7 @@ void StochasticThinDisk::model_param(std::vector<double> const &v) {
   size_t n = v.size();
   if (n>NPAR_MAX) throwError("Too many parameters in model_param");
   for (size_t i=0; i<n; ++i) model_param_[i]=v[i];
+  for (size_t i=n; i<NPAR_MAX; ++i) model_param_[i]=0.;
 }
 std::vector<double> StochasticThinDisk::model_param() const {
   std::vector<double> v(NPAR_MAX, 0.);
diff --git a/lib/ThinDiskProfile.C b/lib/ThinDiskProfile.C
index 2eb917a..89c522b 100644
--- a/lib/ThinDiskProfile.C
+++ b/lib/ThinDiskProfile.C
@@ -83,6 +83,7 @@ void ThinDiskProfile::model_param(std::vector<double> const &v) {
   size_t n = v.size();
   if (n>NPAR_MAX) throwError("Too many parameters in model_param");
   for (size_t i=0; i<n; ++i) model_param_[i]=v[i];
+  for (size_t i=n; i<NPAR_MAX; ++i) model_param_[i]=0.;
 }
 std::vector<double> ThinDiskProfile::model_param() const {
   std::vector<double> v(NPAR_MAX, 0.);
-- 
2.43.0


From 1e5b5eb5d2c01132d6b9ada53086aa7425692e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:42 +0000
Subject: [PATCH 30/63] fix: text that is not a number was silently read as
 zero or raised exceptions other than Gyoto::Error

---
 lib/Object.C | 10 +++++++---
 lib/Utils.C  |  5 ++++-
 lib/Value.C  | 23 +++++++++++++++++++----
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/lib/Object.C b/lib/Object.C
index 97ff279..8262b9e 100644
--- a/lib/Object.C
+++ b/lib/Object.C
@@ -481,6 +481,7 @@ void Object::setParameter(Property const &p, string const &name,
 			  string const & content, string const & unit) {
   GYOTO_DEBUG_EXPR(name);
   Value val;
+  char * end = NULL;
   GYOTO_DEBUG_EXPR(p.type);
   GYOTO_DEBUG_EXPR(Property::double_t);
   switch (p.type) {
@@ -488,13 +489,16 @@ void Object::setParameter(Property const &p, string const &name,
     val = (name==p.name);
     break;
   case Property::long_t:
-    val = strtol(content.c_str(), NULL, 0);
+    val = strtol(content.c_str(), &end, 0);
+    if (end==content.c_str()) GYOTO_ERROR("not an integer: '"+content+"'");
     break;
   case Property::unsigned_long_t:
-    val = strtoul(content.c_str(), NULL, 0);
+    val = strtoul(content.c_str(), &end, 0);
+    if (end==content.c_str()) GYOTO_ERROR("not an integer: '"+content+"'");
     break;
   case Property::size_t_t:
-    val = size_t(strtoul(content.c_str(), NULL, 0));
+    val = size_t(strtoul(content.c_str(), &end, 0));
+    if (end==content.c_str()) GYOTO_ERROR("not an integer: '"+content+"'");
     break;
   case Property::double_t:
     val = Gyoto::atof(content.c_str());
diff --git a/lib/Utils.C b/lib/Utils.C
index 0f4e500..4afe86b 100644
--- a/lib/Utils.C
+++ b/lib/Utils.C
@@ -120,8 +120,11 @@ double Gyoto::atof(const char * str)
   } else {
     std::string loc(setlocale(LC_NUMERIC, NULL));
     setlocale(LC_NUMERIC, "C");
-    retval = std::atof(str);
+    char * end = NULL;
+    retval = std::strtod(str, &end);
     setlocale(LC_NUMERIC, loc.c_str());
+    if (end==str)
+      GYOTO_ERROR(std::string("not a number: '") + str + "'");
   }
 
   GYOTO_DEBUG << "==" << retval << endl;
diff --git a/lib/Value.C b/lib/Value.C
index 82e5dc4..f3d23f3 100644
--- a/lib/Value.C
+++ b/lib/Value.C
@@ -112,7 +112,7 @@ Value::operator double() const {
     try {
 	return stod(String);
     }
-    catch (const std::invalid_argument& e) {
+    catch (const std::exception& e) {
       GYOTO_ERROR("This string does not look like a double: '" + String + "'");
     }
   default:
@@ -130,7 +130,12 @@ Value::operator long() const {
   case Property::size_t_t:
     return long(SizeT);
   case Property::string_t:
-    return stol(String);
+    try {
+      return stol(String);
+    }
+    catch (const std::exception& e) {
+      GYOTO_ERROR("This string does not look like an integer: '" + String + "'");
+    }
   default:
     GYOTO_ERROR("This Value does not hold a long (or unsigned long)");
   }
@@ -146,7 +151,12 @@ Value::operator unsigned long() const {
   case Property::size_t_t:
     return (unsigned long)(SizeT);
   case Property::string_t:
-    return stoul(String);
+    try {
+      return stoul(String);
+    }
+    catch (const std::exception& e) {
+      GYOTO_ERROR("This string does not look like an integer: '" + String + "'");
+    }
   default:
     GYOTO_ERROR("This Value does not hold a long (or unsigned long)");
   }
@@ -182,7 +192,12 @@ Value::operator bool() const {
   case Property::size_t_t:
     return bool(SizeT);
   case Property::string_t:
-    return bool(stoi(String));
+    try {
+      return bool(stoi(String));
+    }
+    catch (const std::exception& e) {
+      GYOTO_ERROR("This string does not look like an integer: '" + String + "'");
+    }
   default:
     GYOTO_ERROR("This Value does not hold an integer");
   }
-- 
2.43.0


From 3fe5c32c1f51738f02be1bd1b4ec8efff2a3fa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:58 +0000
Subject: [PATCH 31/63] fix: unknown properties in the XML of Shift and Complex
 objects were silently ignored; Factory::scenery() crashed on a document that
 is not a Scenery

---
 lib/ComplexAstrobj.C      | 3 ++-
 lib/ComplexMetric.C       | 3 ++-
 lib/ComplexSpectrometer.C | 3 ++-
 lib/Factory.C             | 4 ++++
 lib/Shift.C               | 3 ++-
 5 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/ComplexAstrobj.C b/lib/ComplexAstrobj.C
index 62dbd25..50d4069 100644
--- a/lib/ComplexAstrobj.C
+++ b/lib/ComplexAstrobj.C
@@ -213,7 +213,8 @@ void Complex::setParameters(FactoryMessenger *fmp) {
       child   = fmp -> getChild();
       append ((*Astrobj::getSubcontractor(content, plugin))(child, plugin));
       delete child;
-    } else setParameter(name, content, unit);
+    } else if (setParameter(name, content, unit))
+      GYOTO_ERROR("Property '" + name + "' not found");
   }
 
   if (debug())
diff --git a/lib/ComplexMetric.C b/lib/ComplexMetric.C
index 806da1e..b7a708c 100644
--- a/lib/ComplexMetric.C
+++ b/lib/ComplexMetric.C
@@ -167,7 +167,8 @@ void Complex::setParameters(FactoryMessenger *fmp) {
       child   = fmp -> getChild();
       append ((*Metric::getSubcontractor(content, plugin))(child, plugin));
       delete child;
-    } else setParameter(name, content, unit);
+    } else if (setParameter(name, content, unit))
+      GYOTO_ERROR("Property '" + name + "' not found");
   }
 
   GYOTO_DEBUG << "done" << std::endl;
diff --git a/lib/ComplexSpectrometer.C b/lib/ComplexSpectrometer.C
index bbe0207..9d03379 100644
--- a/lib/ComplexSpectrometer.C
+++ b/lib/ComplexSpectrometer.C
@@ -143,7 +143,8 @@ void Complex::setParameters(FactoryMessenger *fmp) {
       plugin  = split(fmp -> getAttribute("plugin"), ",");
       append ((*Spectrometer::getSubcontractor(content, plugin))(child, plugin));
       delete child;
-    } else setParameter(name, content, unit);
+    } else if (setParameter(name, content, unit))
+      GYOTO_ERROR("Property '" + name + "' not found");
   }
 
   if (debug())
diff --git a/lib/Factory.C b/lib/Factory.C
index 7c6bf47..7d77b2a 100644
--- a/lib/Factory.C
+++ b/lib/Factory.C
@@ -495,6 +495,10 @@ SmartPointer<Scenery> Factory::scenery () {
 			    resolver_,
 			    DOMXPathResult::ORDERED_NODE_SNAPSHOT_TYPE,
 			    NULL);
+    if (!result->getSnapshotLength()) {
+      delete result;
+      return NULL;
+    }
     tmpEl = static_cast< xercesc::DOMElement* >(result -> getNodeValue());
   
     FactoryMessenger fm(this, tmpEl);
diff --git a/lib/Shift.C b/lib/Shift.C
index 2cfcc7a..17c2646 100644
--- a/lib/Shift.C
+++ b/lib/Shift.C
@@ -163,7 +163,8 @@ void Shift::setParameters(FactoryMessenger *fmp) {
       child   = fmp -> getChild();
       subMetric ((*Metric::getSubcontractor(content, plugin))(child, plugin));
       delete child;
-    } else setParameter(name, content, unit);
+    } else if (setParameter(name, content, unit))
+      GYOTO_ERROR("Property '" + name + "' not found");
   }
 
   GYOTO_DEBUG << "done" << std::endl;
-- 
2.43.0


From 070f7c409017fa21570bd3b013229372cf515a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:11 +0000
Subject: [PATCH 32/63] fix: only scalar properties refuse text that is not a
 number (an example relies on vectors reading it as zero)

---
 lib/Object.C | 2 ++
 lib/Utils.C  | 5 +----
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/Object.C b/lib/Object.C
index 8262b9e..7398c7f 100644
--- a/lib/Object.C
+++ b/lib/Object.C
@@ -502,6 +502,8 @@ void Object::setParameter(Property const &p, string const &name,
     break;
   case Property::double_t:
     val = Gyoto::atof(content.c_str());
+    if (double(val)==0. && content.find_first_of("0123456789")==string::npos)
+      GYOTO_ERROR("not a number: '"+content+"'");
     GYOTO_DEBUG << "calling set(p, val, unit)" << std::endl;
     set(p, val, unit);
     return;
diff --git a/lib/Utils.C b/lib/Utils.C
index 4afe86b..0f4e500 100644
--- a/lib/Utils.C
+++ b/lib/Utils.C
@@ -120,11 +120,8 @@ double Gyoto::atof(const char * str)
   } else {
     std::string loc(setlocale(LC_NUMERIC, NULL));
     setlocale(LC_NUMERIC, "C");
-    char * end = NULL;
-    retval = std::strtod(str, &end);
+    retval = std::atof(str);
     setlocale(LC_NUMERIC, loc.c_str());
-    if (end==str)
-      GYOTO_ERROR(std::string("not a number: '") + str + "'");
   }
 
   GYOTO_DEBUG << "==" << retval << endl;
-- 
2.43.0


From cea28dfa7e623c151ec6d07cc7ff97ed7aea11d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:48 +0000
Subject: [PATCH 33/63] fix: spectrometers: log bands read in another unit,
 empty uniform spectrometers, copies and duplicated parts of compound ones

---
 lib/ComplexSpectrometer.C | 16 ++++++++++++----
 lib/UniformSpectrometer.C | 12 ++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/lib/ComplexSpectrometer.C b/lib/ComplexSpectrometer.C
index 9d03379..d4f98a3 100644
--- a/lib/ComplexSpectrometer.C
+++ b/lib/ComplexSpectrometer.C
@@ -47,6 +47,7 @@ Complex::Complex(const Complex& o) :
     elements_ = new SmartPointer<Generic> [cardinal_];
     for (size_t i=0; i< cardinal_; ++i) {
       elements_[i] = o[i]->clone();
+      elements_[i]->hook(this);
     }
   }
 }
@@ -60,7 +61,11 @@ bool Complex::isThreadSafe() const {
 
 Complex::~Complex()
 {
-  if (cardinal_) for (size_t i=0; i< cardinal_; ++i) elements_[i] = NULL;
+  if (cardinal_) for (size_t i=0; i< cardinal_; ++i) {
+      elements_[i]->unhook(this);
+      elements_[i] = NULL;
+    }
+  delete [] elements_;
 }
 
 void Complex::append(SmartPointer<Generic> e)
@@ -83,14 +88,14 @@ void Complex::append(SmartPointer<Generic> e)
 
 SmartPointer<Generic> & Complex::operator[](size_t i)
 {
-  if (i > cardinal_)
+  if (i >= cardinal_)
     GYOTO_ERROR("Complex::operator[](size_t i): no such element");
   return elements_[i];
 }
 
 SmartPointer<Generic> const & Complex::operator[](size_t i) const
 {
-  if (i > cardinal_)
+  if (i >= cardinal_)
     GYOTO_ERROR("Complex::operator[](size_t i): no such element");
   return elements_[i];
 }
@@ -98,7 +103,10 @@ SmartPointer<Generic> const & Complex::operator[](size_t i) const
 void Complex::remove(size_t i) {
   if (i >= cardinal_)
     GYOTO_ERROR("Complex::remove(size_t i): no such element");
-  elements_[i]->unhook(this);
+  bool duplicate=false; // still listen if it is there several times
+  for (size_t k=0; k<cardinal_; ++k)
+    if (k != i && elements_[k] == elements_[i]) duplicate=true;
+  if (!duplicate) elements_[i]->unhook(this);
   SmartPointer<Generic> * orig = elements_;
   if (--cardinal_) elements_ = new SmartPointer<Generic> [cardinal_];
   else elements_ = NULL;
diff --git a/lib/UniformSpectrometer.C b/lib/UniformSpectrometer.C
index 7863781..9c1f952 100644
--- a/lib/UniformSpectrometer.C
+++ b/lib/UniformSpectrometer.C
@@ -90,6 +90,7 @@ Uniform::Uniform(size_t nsamples, double band_min, double band_max, kind_t kin)
 : Generic(kin)
 {
   nsamples_=nsamples;
+  nboundaries_=nsamples_?nsamples_+1:0;
   band_[0]=band_min; band_[1]=band_max;
   if (nsamples && kin) reset_();
 }
@@ -119,7 +120,10 @@ void Uniform::reset_() {
   midpoints_ = NULL;
   widths_ = NULL;
   GYOTO_DEBUG << endl;
-  if (!nsamples_ || !kindid_) return;
+  if (!nsamples_ || !kindid_) {
+    tellListeners();
+    return;
+  }
 
   boundaries_ = new double[nsamples_+1];
   chanind_    = new size_t[nsamples_*2];
@@ -204,7 +208,7 @@ std::string Uniform::kind() const {return Object::kind_;}
 
 void Uniform::nSamples(size_t n) {
   nsamples_ = n;
-  nboundaries_=nsamples_+1;
+  nboundaries_=nsamples_?nsamples_+1:0;
   reset_();
 }
 
@@ -236,7 +240,7 @@ std::vector<double> Uniform::band(std::string const &unit) const {
   } else if (kindid_== FreqLogKind) {
     if (unit != "" && unit != "Hz")
       for (size_t i=0; i<=1; ++i)
-	vnu[i] = pow(10., Units::FromHerz(log10(vnu[i]), unit));
+	vnu[i] = log10(Units::FromHerz(pow(10., vnu[i]), unit));
   } else if (kindid_== WaveKind) {
     if (unit != "" && unit != "m")
       for (size_t i=0; i<=1; ++i)
@@ -244,7 +248,7 @@ std::vector<double> Uniform::band(std::string const &unit) const {
   } else if (kindid_ == WaveLogKind) {
     if (unit != "" && unit != "m")
       for (size_t i=0; i<=1; ++i)
-	vnu[i] = pow(10., Units::FromMeters(log10(vnu[i]), unit));
+	vnu[i] = log10(Units::FromMeters(pow(10., vnu[i]), unit));
   } else {
     GYOTO_ERROR("Uniform::band(string const &unit) at loss: "
 	       "please specify Spectrometer kind");
-- 
2.43.0


From 2c0d83614cfb56a9e47af42939bc807f237c627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:41 +0000
Subject: [PATCH 34/63] fix: a mask file refused, or a mask deleted by a new
 resolution, left the Screen half changed

A mask file that is not square or cannot be read replaced the resolution and
dropped the mask before failing; changing the resolution deleted the mask but
kept its file name, so that writing the Screen and reading it back restored it.
---
 lib/Screen.C | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/Screen.C b/lib/Screen.C
index eef1ab8..8c5aeb4 100644
--- a/lib/Screen.C
+++ b/lib/Screen.C
@@ -924,20 +924,25 @@ void Screen::fitsReadMask(std::string const &filename) {
     return;
   }
   if (fits_get_img_size(fptr, 3, naxes, &status)) throwCfitsioError(status) ;
-  if (naxes[0] != naxes[1])
+  if (naxes[0] != naxes[1]) {
+    fits_close_file(fptr, &status);
     GYOTO_ERROR("Screen::fitsReadMask(): mask must be square");
+  }
   //  if (naxes[2] > 1)
   //    GYOTO_ERROR("Screen::fitsReadMask(): mask must have only one plane");
-  npix_=naxes[0];
-  if (mask_) { delete[] mask_; mask_=NULL; mask_filename_="";}
-  mask_ = new double[npix_*npix_];
+  double * newmask = new double[naxes[0]*naxes[1]];
   inc[2]=naxes[2]; // read only first plane!
   if (fits_read_subset(fptr, TDOUBLE, fpixel, naxes, inc,
-		       0, mask_,&anynul,&status)) {
+		       0, newmask,&anynul,&status)) {
     GYOTO_DEBUG << " error, trying to free pointer" << endl;
-    delete [] mask_; mask_=NULL;
+    delete [] newmask;
+    int closestatus=0;
+    fits_close_file(fptr, &closestatus);
     throwCfitsioError(status) ;
   }
+  npix_=naxes[0];
+  delete [] mask_;
+  mask_=newmask;
   if (fits_close_file(fptr, &status)) throwCfitsioError(status) ;
   mask_filename_=filename;
   fptr = NULL;
@@ -1298,7 +1303,7 @@ size_t Screen::resolution() const { return npix_; }
 void Screen::resolution(size_t n) {
   if (mask_ && n != npix_) {
     GYOTO_INFO << "Changing resolution: deleting mask" << endl;
-    delete[] mask_; mask_=NULL;
+    delete[] mask_; mask_=NULL; mask_filename_="";
   }
   npix_ = n;
 }
-- 
2.43.0


From 4029780faa2d3d629b5142729002c1b8c0da84cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:12 +0000
Subject: [PATCH 35/63] fix: units of requested quantities ignored, or left
 over from the previous list

A unit given to a quantity that does not support one was silently ignored, as
was the unit of SpectrumStokesQ, U or V; the unit of a previous list still
applied to quantities of the next one; a missing bracket truncated the unit.
---
 lib/Scenery.C | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index b5533cf..3a7def7 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -839,12 +839,20 @@ void Scenery::requestedQuantitiesString(std::string const &squant) {
 # endif
 
   quantities_=0;
+# ifdef HAVE_UDUNITS
+  // Default is SI
+  intensity_converter_   = NULL;
+  spectrum_converter_    = NULL;
+  binspectrum_converter_ = NULL;
+# endif
   try {
   while (tk != NULL) {
     tkk = tk;
     first = tkk.find("[");
     last = tkk.size() - 1;
     if (first < last) {
+      if (tkk[last] != ']')
+	GYOTO_ERROR("missing closing bracket in quantity \""+tkk+"\"");
       unit = tkk.substr(first+1, last-first-1);
       quant = tkk.substr(0, first);
     } else {
@@ -856,6 +864,10 @@ void Scenery::requestedQuantitiesString(std::string const &squant) {
 #   endif
     tk=const_cast<char*>(quant.c_str());
 
+    if (unit != "" && quant != "Intensity" &&
+	quant.compare(0, 8, "Spectrum") && quant != "BinSpectrum")
+      GYOTO_ERROR("quantity \""+quant+"\" does not support units");
+
     if (!strcmp(tk, "Intensity")) {
       quantities_ |= GYOTO_QUANTITY_INTENSITY;
       intensityConverter(unit);
@@ -871,12 +883,18 @@ void Scenery::requestedQuantitiesString(std::string const &squant) {
       quantities_ |= GYOTO_QUANTITY_NBCROSSEQPLANE;
     else if (!strcmp(tk, "ImpactCoords"))
       quantities_ |= GYOTO_QUANTITY_IMPACTCOORDS;
-    else if (!strcmp(tk, "SpectrumStokesQ"))
+    else if (!strcmp(tk, "SpectrumStokesQ")) {
       quantities_ |= GYOTO_QUANTITY_SPECTRUM_STOKES_Q;
-    else if (!strcmp(tk, "SpectrumStokesU"))
+      if (unit != "") spectrumConverter(unit);
+    }
+    else if (!strcmp(tk, "SpectrumStokesU")) {
       quantities_ |= GYOTO_QUANTITY_SPECTRUM_STOKES_U;
-    else if (!strcmp(tk, "SpectrumStokesV"))
+      if (unit != "") spectrumConverter(unit);
+    }
+    else if (!strcmp(tk, "SpectrumStokesV")) {
       quantities_ |= GYOTO_QUANTITY_SPECTRUM_STOKES_V;
+      if (unit != "") spectrumConverter(unit);
+    }
     else if (!strcmp(tk, "Spectrum")) {
       quantities_ |= GYOTO_QUANTITY_SPECTRUM;
       spectrumConverter(unit);
-- 
2.43.0


From ea3edd04438d9c5f486dea88a8c9ee5dfa787d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:44 +0000
Subject: [PATCH 36/63] fix: a ray was stopped before everything accumulated
 along it was opaque

---
 lib/Photon.C | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/Photon.C b/lib/Photon.C
index 12a998c..eb3560b 100644
--- a/lib/Photon.C
+++ b/lib/Photon.C
@@ -280,6 +280,26 @@ void Photon::setInitialCondition(SmartPointer<Metric::Generic> met,
   if (obj) object_=obj;
 }
 
+// Largest transmission over what is being accumulated in data
+static double transmissionMax(Photon const * ph,
+			      Astrobj::Properties const * data) {
+  bool stokes = data && (data->spectrum || data->stokesQ
+			 || data->stokesU || data->stokesV);
+  bool bin    = data && data->binspectrum;
+  SmartPointer<Spectrometer::Generic> spr = ph->spectrometer();
+  size_t nsamples = spr() ? spr->nSamples() : 0;
+  double transmax = 0.;
+  for (size_t i=0; i<nsamples; ++i) {
+    if (stokes && ph->parallelTransport())
+      transmax = max(transmax, ph->getTransmissionMatrix(i)(0,0));
+    if (bin || (stokes && !ph->parallelTransport()))
+      transmax = max(transmax, ph->getTransmission(i));
+  }
+  if ((!stokes && !bin) || data->intensity)
+    transmax = max(transmax, ph->getTransmission(size_t(-1)));
+  return transmax;
+}
+
 int Photon::hit(Astrobj::Properties *data) {
   /*
     Ray-tracing of the photon until the object_ is hit. Radiative
@@ -687,7 +707,7 @@ int Photon::hit(Astrobj::Properties *data) {
       GYOTO_DEBUG_EXPR(transmission_freqobs_);
 #     endif
 
-      if ( getTransmissionMax() < GYOTO_LIMIT_TRANSMISSION ) {
+      if ( transmissionMax(this, data) < GYOTO_LIMIT_TRANSMISSION ) {
 	stopcond=1;
 
 #       if GYOTO_DEBUG_ENABLED
-- 
2.43.0


From 9c3fac9e80d7bae3f586d4c7f4795e9fd0d06680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:44 +0000
Subject: [PATCH 37/63] fix: image orders written through null pointers when no
 data, or not all of User1 to User3, are requested

---
 lib/Photon.C | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/lib/Photon.C b/lib/Photon.C
index eb3560b..b23e538 100644
--- a/lib/Photon.C
+++ b/lib/Photon.C
@@ -594,6 +594,7 @@ int Photon::hit(Astrobj::Properties *data) {
 
   }
   double h1max=DBL_MAX;
+  double order0=0., order1=0.; // contributions of orders 0 and 1
   while (!stopcond) {
     // Next step along photon's worldline
     h1max=object_ -> deltaMax(&coord[0]);
@@ -1065,37 +1066,26 @@ int Photon::hit(Astrobj::Properties *data) {
       GYOTO_DEBUG_EXPR(nb_cross_eqplane_);
 
       // Store if necessary the image order stuff in the relevant data:
-      if (data->nbcrosseqplane && compute_Mino==0 &&
+      if (data && data->nbcrosseqplane && compute_Mino==0 &&
 	  nb_cross_eqplane_==nb_theta_turningpoints){
       	*data->nbcrosseqplane=nb_cross_eqplane_;
       }
 
-      if (data->nbcrosseqplane && compute_Mino==1)
+      if (data && data->nbcrosseqplane && compute_Mino==1)
 	*data->nbcrosseqplane=geodesic_order;
 
-      if (data->user1 &&
-	  geodesic_order==0) {
-	if (data->spectrum)
-	  *data->user1=data->spectrum[0]; // User1 keep tracks of Spectrum until the geodesic becomes of order 1
-	if (data->user4)
-	  *data->user1=data->user4[0]; 
-	//cout << "saving order 0 spectrum of " << data->spectrum[0] << " " << *data->user1 << " at rc,z=" << coord[1]*sin(coord[2]) << " " << coord[1]*cos(coord[2]) << endl;
-      }
-      if (data->user2 &&
-	  geodesic_order==1) {
-	if (data->spectrum)
-	  *data->user2=data->spectrum[0]-*data->user1;
-	if (data->user4)
-	  *data->user2=data->user4[0]-*data->user1;
-	//cout << "saving order 1 spectrum of " << data->spectrum[0] << " " << *data->user1 << " " << *data->user2 << " at rc,z=" << coord[1]*sin(coord[2]) << " " << coord[1]*cos(coord[2]) << endl;
-      }
-      if (data->user3 &&
-	  geodesic_order==2) {
-	if (data->spectrum)
-	  *data->user3=data->spectrum[0]-*data->user1-*data->user2;
-	if (data->user4)
-	  *data->user3=data->user4[0]-*data->user1-*data->user2;
-	//cout << "saving order 2 spectrum of " << *data->user3 << " at rc,z=" << coord[1]*sin(coord[2]) << " " << coord[1]*cos(coord[2]) << endl;
+      if (data && (data->spectrum || data->user4)) {
+	// User1 keeps track of Spectrum (or User4) until the geodesic
+	// becomes of order 1, User2 and User3 do the same for orders 1 and 2
+	double flux = data->user4 ? *data->user4 : data->spectrum[0];
+	if (geodesic_order==0) {
+	  order0 = flux;
+	  if (data->user1) *data->user1=order0;
+	} else if (geodesic_order==1) {
+	  order1 = flux-order0;
+	  if (data->user2) *data->user2=order1;
+	} else if (geodesic_order==2 && data->user3)
+	  *data->user3=flux-order0-order1;
       }
       if (geodesic_order == maxCrossEqplane_){
 	// stop integration if maxcross reached
-- 
2.43.0


From d4a1250e5c5d9fec33793fc04e642ff395f84373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:44 +0000
Subject: [PATCH 38/63] fix: transmission of the channels not updated for
 BinSpectrum when polarised, spectrum written when not requested

---
 lib/Astrobj.C | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index c5452a4..c9ce6a4 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -296,7 +296,8 @@ void Generic::processHitQuantities(Photon * ph, state_t const &coord_ph_hit,
 		        << data->binspectrum[ii*data->offset]<< endl;
 				#endif
 
-				if (!data->spectrum) // else it will be done in spectrum
+				if (!(data->spectrum||data->stokesQ||data->stokesU||data->stokesV)
+				    || ph -> parallelTransport()) // else it will be done in spectrum
 				  ph -> transmit(ii,transmission(nuobs[ii]*ggredm1,dsem,coord_ph_hit, coord_obj_hit));
       }
       delete [] I;
@@ -408,7 +409,7 @@ void Generic::processHitQuantities(Photon * ph, state_t const &coord_ph_hit,
 				  	if (data -> spectrum_converter_)
 				    	inc = (*data -> spectrum_converter_)(inc);
 					#endif
-				  data->spectrum[ii*data->offset] += inc;
+				  if (data->spectrum) data->spectrum[ii*data->offset] += inc;
 				  ph -> transmit(ii,Taunu[ii]);
 
 					#if GYOTO_DEBUG_ENABLED
@@ -422,8 +423,8 @@ void Generic::processHitQuantities(Photon * ph, state_t const &coord_ph_hit,
 				    << ", dsem=" << dsem
 				    << ", Inu * GM/c2="
 				    << Inu[ii]
-				    << ", spectrum[" << ii*data->offset << "]="
-				    << data->spectrum[ii*data->offset]
+				    << ", inc[" << ii*data->offset << "]="
+				    << inc
 				    << ", transmission=" << t
 				    << ", optical depth=" << o
 				    << ", redshift=" << ggred << ")\n" << endl;
-- 
2.43.0


From 1b98edaa8a506a06c16c4b5c2e64756061a9ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:01 +0000
Subject: [PATCH 39/63] fix: PageThorneDisk refused to compute a spectrum
 without polarisation and did not hide what lies behind it in the channels

---
 lib/PageThorneDisk.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/PageThorneDisk.C b/lib/PageThorneDisk.C
index d8131d2..99b3bdc 100644
--- a/lib/PageThorneDisk.C
+++ b/lib/PageThorneDisk.C
@@ -302,7 +302,8 @@ void PageThorneDisk::processHitQuantities(Photon* ph, state_t const &coord_ph_hi
         //cout << "transmission : " << ph -> getTransmission(size_t(-1)) << endl;
       }
     }
-    if (data->spectrum||data->stokesQ||data->stokesU||data->stokesV) {
+    if ((data->spectrum and ph -> parallelTransport())
+	||data->stokesQ||data->stokesU||data->stokesV) {
       //ggred=1.;
       if (!ph -> parallelTransport())
         GYOTO_ERROR("parallelTransport not true, impossible to compute polarisation");
@@ -364,6 +365,7 @@ void PageThorneDisk::processHitQuantities(Photon* ph, state_t const &coord_ph_hi
       delete [] nuem;
     }
     /* update photon's transmission */
+    for (size_t ii=0; ii<nbnuobs; ++ii) ph -> transmit(ii, 0.);
     ph -> transmit(size_t(-1),0); // We force the transmission to be zero because optically thick
                                   // and radiativeQ(polar) implemented which break the flag loop in Generic
   } else {
-- 
2.43.0


From 9751db9b52460d0dc1673dde6cb0a2f386500f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:34 +0000
Subject: [PATCH 40/63] fix: unit of Spectrum ignored by PageThorneDisk,
 ThinDiskProfile and StochasticThinDisk

---
 lib/PageThorneDisk.C     | 4 ++++
 lib/StochasticThinDisk.C | 4 ++++
 lib/ThinDiskProfile.C    | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/lib/PageThorneDisk.C b/lib/PageThorneDisk.C
index 99b3bdc..d706353 100644
--- a/lib/PageThorneDisk.C
+++ b/lib/PageThorneDisk.C
@@ -297,6 +297,10 @@ void PageThorneDisk::processHitQuantities(Photon* ph, state_t const &coord_ph_hi
       	inc = (emission(nuem, dsem, coord_ph_hit, coord_obj_hit))
       	  * (ph -> getTransmission(size_t(-1)))
       	  * ggred*ggred*ggred; // Inu/nu^3 invariant
+#       ifdef HAVE_UDUNITS
+	if (data -> spectrum_converter_)
+	  inc = (*data -> spectrum_converter_)(inc);
+#       endif
       	data->spectrum[ii*data->offset] += inc;
       	//cout << "in spec stored= " << ggred << " " << inc << endl;
         //cout << "transmission : " << ph -> getTransmission(size_t(-1)) << endl;
diff --git a/lib/StochasticThinDisk.C b/lib/StochasticThinDisk.C
index a3e8032..d5e9774 100644
--- a/lib/StochasticThinDisk.C
+++ b/lib/StochasticThinDisk.C
@@ -437,6 +437,10 @@ void StochasticThinDisk::processHitQuantities(Photon* ph,
  	  * (emission(nuem[ii], coord_ph_hit, coord_obj_hit))
  	  * (ph -> getTransmission(size_t(-1)))
  	  * ggred*ggred*ggred; // I/nu^3 invariant
+#        ifdef HAVE_UDUNITS
+	 if (data -> spectrum_converter_)
+	   inc = (*data -> spectrum_converter_)(inc);
+#        endif
          *data->spectrum += inc; // data->spectrum[ii*data->offset] += inc  !Error
        }
        #if GYOTO_DEBUG_ENABLED
diff --git a/lib/ThinDiskProfile.C b/lib/ThinDiskProfile.C
index 89c522b..61caefa 100644
--- a/lib/ThinDiskProfile.C
+++ b/lib/ThinDiskProfile.C
@@ -464,6 +464,10 @@ void ThinDiskProfile::processHitQuantities(Photon* ph,
  	  * (emission(nuem[ii], dsem, coord_ph_hit, coord_obj_hit))
  	  * (ph -> getTransmission(size_t(-1)))
  	  * ggred*ggred*ggred; // I/nu^3 invariant
+#        ifdef HAVE_UDUNITS
+	 if (data -> spectrum_converter_)
+	   inc = (*data -> spectrum_converter_)(inc);
+#        endif
          *data->spectrum += inc; // data->spectrum[ii*data->offset] += inc  !Error
        }
        #if GYOTO_DEBUG_ENABLED
-- 
2.43.0


From ce0c551db76fceec2d167357c5fe101e6c36a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:14 +0000
Subject: [PATCH 41/63] fix: rays went through opaque objects when only
 distances or crossings were requested

---
 lib/Astrobj.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index c9ce6a4..643a42c 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -436,7 +436,8 @@ void Generic::processHitQuantities(Photon * ph, state_t const &coord_ph_hit,
 				delete [] nuem;
       }
     }
-    if (data->redshift||data->time||data->impactcoords||data->intensity||data->binspectrum){
+    if (data->redshift||data->time||data->impactcoords||data->intensity||data->binspectrum
+	||!(data->spectrum||data->stokesQ||data->stokesU||data->stokesV)){
 	    /* update photon's transmission */
 	    ph -> transmit(size_t(-1),
 			   transmission(freqObs*ggredm1, dsem,coord_ph_hit, coord_obj_hit));
-- 
2.43.0


From 7bdcb68365c1e7e502b3c5a1d089f76064cf157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:39 +0000
Subject: [PATCH 42/63] fix: threads reusing impact coordinates all worked on
 the same object

---
 lib/Scenery.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index 3a7def7..0e01c8d 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -755,7 +755,8 @@ void Scenery::operator() (
       ph -> resetTransmission();
       state_t coord(8);
       ph -> getInitialCoord(coord);
-      astrobj() -> processHitQuantities(ph,coord,impactcoords,0.,data);
+      // in a thread, ph refers to its own copy of the object
+      ph -> astrobj() -> processHitQuantities(ph,coord,impactcoords,0.,data);
     }
   } else {
 #   if GYOTO_DEBUG_ENABLED
-- 
2.43.0


From eec7757d437664852a3ffa6fb6f6c98106676bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:39 +0000
Subject: [PATCH 43/63] fix: redshift and emission date of opaque objects were
 those of a point below the surface

---
 include/GyotoPhoton.h |  3 +++
 lib/Photon.C          | 39 ++++++++++++++++++---------------------
 lib/StandardAstrobj.C |  5 ++++-
 3 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/include/GyotoPhoton.h b/include/GyotoPhoton.h
index 10198a3..46ad26a 100644
--- a/include/GyotoPhoton.h
+++ b/include/GyotoPhoton.h
@@ -322,6 +322,9 @@ class Gyoto::Photon
    */ 
   double getTransmissionMax() const ;
 
+  /// Get maximum transmission over what is being accumulated in data
+  double getTransmissionMax(Astrobj::Properties const * data) const ;
+
   /// Get Photon::transmission_
   /**
    * getTansmission()[i] == getTransmission(size_t i)
diff --git a/lib/Photon.C b/lib/Photon.C
index b23e538..2a0a84a 100644
--- a/lib/Photon.C
+++ b/lib/Photon.C
@@ -280,26 +280,6 @@ void Photon::setInitialCondition(SmartPointer<Metric::Generic> met,
   if (obj) object_=obj;
 }
 
-// Largest transmission over what is being accumulated in data
-static double transmissionMax(Photon const * ph,
-			      Astrobj::Properties const * data) {
-  bool stokes = data && (data->spectrum || data->stokesQ
-			 || data->stokesU || data->stokesV);
-  bool bin    = data && data->binspectrum;
-  SmartPointer<Spectrometer::Generic> spr = ph->spectrometer();
-  size_t nsamples = spr() ? spr->nSamples() : 0;
-  double transmax = 0.;
-  for (size_t i=0; i<nsamples; ++i) {
-    if (stokes && ph->parallelTransport())
-      transmax = max(transmax, ph->getTransmissionMatrix(i)(0,0));
-    if (bin || (stokes && !ph->parallelTransport()))
-      transmax = max(transmax, ph->getTransmission(i));
-  }
-  if ((!stokes && !bin) || data->intensity)
-    transmax = max(transmax, ph->getTransmission(size_t(-1)));
-  return transmax;
-}
-
 int Photon::hit(Astrobj::Properties *data) {
   /*
     Ray-tracing of the photon until the object_ is hit. Radiative
@@ -708,7 +688,7 @@ int Photon::hit(Astrobj::Properties *data) {
       GYOTO_DEBUG_EXPR(transmission_freqobs_);
 #     endif
 
-      if ( transmissionMax(this, data) < GYOTO_LIMIT_TRANSMISSION ) {
+      if ( getTransmissionMax(data) < GYOTO_LIMIT_TRANSMISSION ) {
 	stopcond=1;
 
 #       if GYOTO_DEBUG_ENABLED
@@ -1219,6 +1199,23 @@ double Photon::getTransmissionMax() const {
   return transmax;
 }
 
+double Photon::getTransmissionMax(Astrobj::Properties const * data) const {
+  bool stokes = data && (data->spectrum || data->stokesQ
+			 || data->stokesU || data->stokesV);
+  bool bin    = data && data->binspectrum;
+  size_t nsamples = spectro_() ? spectro_->nSamples() : 0;
+  double transmax = 0.;
+  for (size_t i=0; i<nsamples; ++i) {
+    if (stokes && parallelTransport())
+      transmax = max(transmax, getTransmissionMatrix(i)(0,0));
+    if (bin || (stokes && !parallelTransport()))
+      transmax = max(transmax, getTransmission(i));
+  }
+  if ((!stokes && !bin) || data->intensity)
+    transmax = max(transmax, getTransmission(size_t(-1)));
+  return transmax;
+}
+
 double const * Photon::getTransmission() const { return transmission_; }
 Matrix4d const * Photon::getTransmissionMatrix() const { return transmissionMatrix_; }
 
diff --git a/lib/StandardAstrobj.C b/lib/StandardAstrobj.C
index 4401491..bf34357 100644
--- a/lib/StandardAstrobj.C
+++ b/lib/StandardAstrobj.C
@@ -198,8 +198,11 @@ int Standard::Impact(Photon* ph, size_t index, Properties *data){
     }
 
     // dt == 0 means the two points are outside
-    if (dt != 0.)
+    if (dt != 0.) {
       processHitQuantities(ph, cph, coh, dt, data);
+      // What lies deeper can't be seen
+      if (data && ph -> getTransmissionMax(data) == 0.) break;
+    }
 
     // Copy next to current
     cph = cph_next;
-- 
2.43.0


From f80821d95744bbf866046760eeb80ffe2886160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:53 +0000
Subject: [PATCH 44/63] fix: spectral quantities overlapped when rendering with
 MPI workers

---
 lib/Scenery.C | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index 0e01c8d..c1d0044 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -476,23 +476,23 @@ void Scenery::rayTrace(Screen::Coord2dSet & ij,
       locdata->user5=vect+offset*(curquant++);
     }
     if (quantities & GYOTO_QUANTITY_SPECTRUM) {
-      locdata->spectrum=vect+offset*(curquant++);
+      locdata->spectrum=vect+offset*curquant; curquant+=nbnuobs;
       locdata->offset=int(offset);
     }
     if (quantities & GYOTO_QUANTITY_SPECTRUM_STOKES_Q) {
-      locdata->stokesQ=vect+offset*(curquant++);
+      locdata->stokesQ=vect+offset*curquant; curquant+=nbnuobs;
       locdata->offset=int(offset);
     }
     if (quantities & GYOTO_QUANTITY_SPECTRUM_STOKES_U) {
-      locdata->stokesU=vect+offset*(curquant++);
+      locdata->stokesU=vect+offset*curquant; curquant+=nbnuobs;
       locdata->offset=int(offset);
     }
     if (quantities & GYOTO_QUANTITY_SPECTRUM_STOKES_V) {
-      locdata->stokesV=vect+offset*(curquant++);
+      locdata->stokesV=vect+offset*curquant; curquant+=nbnuobs;
       locdata->offset=int(offset);
     }
     if (quantities & GYOTO_QUANTITY_BINSPECTRUM) {
-      locdata->binspectrum=vect+offset*(curquant++);
+      locdata->binspectrum=vect+offset*curquant; curquant+=nbnuobs;
       locdata->offset=int(offset);
     }
 
-- 
2.43.0


From d61c28d56e70a11ea36b73fa50d16b69fd62d00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:00 +0000
Subject: [PATCH 45/63] fix: masks set by the program were ignored when
 rendering with MPI workers

---
 lib/Scenery.C | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index c1d0044..1ce8c12 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -519,6 +519,19 @@ void Scenery::rayTrace(Screen::Coord2dSet & ij,
 
 	size_t cs=cell[w]; // remember where to store results
 
+	// the workers may not know the mask: don't send masked-out pixels
+	while (is_pixel && ij.valid()) {
+	  ijb=*ij;
+	  if ((*screen_)(ijb[0], ijb[1])) break;
+	  if (data) {
+	    Astrobj::Properties masked = *data;
+	    masked += alloc?(ijb[1]-1)*npix+ijb[0]-1:cnt;
+	    masked.init(nbnuobs);
+	  }
+	  ++cnt;
+	  ++ij;
+	}
+
 	// give new task or decrease working counter
 	if (ij.valid()) {
 	  cell[w]=cnt++;
-- 
2.43.0


From 5a0f1042c6bba9e071d6117628ba9ff08b287dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:49 +0000
Subject: [PATCH 46/63] fix: gyoto: refuse pixel indices and steps that are not
 positive

--di=-1 or --ispec=0:3 made the program write outside of its buffers.
---
 bin/gyoto.C | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bin/gyoto.C b/bin/gyoto.C
index 226506f..9c0d68e 100644
--- a/bin/gyoto.C
+++ b/bin/gyoto.C
@@ -416,6 +416,10 @@ int main(int argc, char** argv) {
     case STEPS:
       {
 	ptrdiff_t val=atoi(opt.arg);
+	if (val<0){
+	  cerr << "In gyoto.C: screen steps should be >0" << endl;
+	  return 1;
+	}
 	if (val==0) val=1;
 	switch(opt.type()) {
 	case ISTEP: di=val; break;
@@ -431,8 +435,7 @@ int main(int argc, char** argv) {
 	string spec=opt.arg;
 	size_t pos=spec.find(":"), pos2=string::npos;
 	string sub=spec.substr(0, pos);
-	size_t nmin=1, nmax=ULONG_MAX;
-	ptrdiff_t dn=1;
+	ptrdiff_t nmin=1, nmax=LONG_MAX, dn=1;
 	if (sub.length()) nmin=atoi(sub.c_str());
 	if (pos==string::npos) {
 	  nmax=nmin;
@@ -445,6 +448,10 @@ int main(int argc, char** argv) {
 	    if (sub.length()) dn=atoi(sub.c_str());
 	  }
 	}
+	if (nmin<=0 || nmax<=0 || dn<=0) {
+	  cerr << "In gyoto.C: screen indices and steps should be >0" << endl;
+	  return 1;
+	}
 	GYOTO_DEBUG << "nmin="<<nmin<<", nmax="<<nmax<<", dn="<<dn<<endl;
 	switch (opt.type()) {
 	case ISPEC: imin=nmin; imax=nmax; di=dn; break;
-- 
2.43.0


From 88db3f38936318da8ffe2c19e8644e7f8a29e1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:49 +0000
Subject: [PATCH 47/63] fix: gyoto: pixels that are not selected were saved
 uninitialized

---
 bin/gyoto.C | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/gyoto.C b/bin/gyoto.C
index 9c0d68e..a33e388 100644
--- a/bin/gyoto.C
+++ b/bin/gyoto.C
@@ -48,6 +48,9 @@
 // ULONG_MAX
 #include <climits>
 
+// DBL_MAX
+#include <cfloat>
+
 // dlsym
 #include <dlfcn.h>
 
@@ -587,7 +590,7 @@ int main(int argc, char** argv) {
                //nb of frames used for diverse interesting outputs
                //(obs flux, impact time, redshift..)
     size_t nelt=res*res*nbdata;
-    vect = new double[nelt];
+    vect = new double[nelt]();
 
     // First check whether we can open file
     int naxis=3; 
@@ -667,6 +670,7 @@ int main(int argc, char** argv) {
       // Allocate if requested AND not provided
       GYOTO_DEBUG << "allocating data->impactcoords" << endl;
       ::data->impactcoords = impactcoords = new double [res*res*16];
+      for (size_t i=0; i < res*res*16; ++i) impactcoords[i] = DBL_MAX;
       ipcttime = tobs * GYOTO_C / scenery -> metric() -> unitLength();
     }
     if (quantities & GYOTO_QUANTITY_USER1) {
-- 
2.43.0


From fe0cb1fb793a581e41db261b9f38890c93c1c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:49 +0000
Subject: [PATCH 48/63] fix: gyoto: --no-sigfpe enabled SIGFPE

---
 bin/gyoto.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/gyoto.C b/bin/gyoto.C
index a33e388..f5ea798 100644
--- a/bin/gyoto.C
+++ b/bin/gyoto.C
@@ -393,8 +393,8 @@ int main(int argc, char** argv) {
     switch(opt.index()) {
     case NOSIGFPE:
 #if defined HAVE_FENV_H
-      GYOTO_DEBUG << "enabling SIGFPE delivery\n";
-      feenableexcept(FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID);
+      GYOTO_DEBUG << "disabling SIGFPE delivery\n";
+      fedisableexcept(FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID);
 #endif
       break;
     case BOUNDARIES:
-- 
2.43.0


From 88d4fcb5280d9cb8fee4dab583317f25b95c0485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:28 +0000
Subject: [PATCH 49/63] fix: runge_kutta_dopri5 integrator started steps with
 the derivative of another one

---
 lib/WorldlineIntegState.C | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index b89290a..826cd09 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -581,6 +581,9 @@ void Gyoto::Worldline::IntegState::Boost::setup_stepper(){
         mutable
         -> controlled_step_result
       {
+        // this stepper reuses the derivative at the end of its previous
+        // step, which may not be where this one starts
+        controlled.reset();
         return controlled.try_step(this->system_, inout, t, h);
       };
       do_step_ =
@@ -588,6 +591,7 @@ void Gyoto::Worldline::IntegState::Boost::setup_stepper(){
         (state_t &inout, double h)
         mutable
       {
+        controlled.stepper().reset();
         controlled.stepper().do_step(this->system_, inout, 0., h);
       };
       break;
-- 
2.43.0


From bfa74c3306b93a169e194c9574fc0823ba61001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:28 +0000
Subject: [PATCH 50/63] fix: metrics did not tell trajectories of changes of
 some of their parameters

---
 lib/ChernSimons.C              | 2 +-
 lib/ComplexMetric.C            | 2 ++
 lib/Kerr2PN.C                  | 2 ++
 lib/KerrBL.C                   | 2 +-
 lib/KonoplyaRezzollaZhidenko.C | 4 +++-
 lib/ReissnerNordstrom.C        | 1 +
 lib/RezzollaZhidenko.C         | 8 +++++---
 lib/Shift.C                    | 1 +
 8 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/ChernSimons.C b/lib/ChernSimons.C
index 7176b55..88bbd20 100644
--- a/lib/ChernSimons.C
+++ b/lib/ChernSimons.C
@@ -35,7 +35,7 @@ GYOTO_PROPERTY_DOUBLE(ChernSimons, DzetaCS, dzetaCS, "Chern-Simons coupling cons
 GYOTO_PROPERTY_END(ChernSimons, KerrBL::properties)
 
 // accessor
-void ChernSimons::dzetaCS(double d) {dzetaCS_=d;}
+void ChernSimons::dzetaCS(double d) {dzetaCS_=d; tellListeners();}
 double ChernSimons::dzetaCS() const {return dzetaCS_;}
 
 ///
diff --git a/lib/ComplexMetric.C b/lib/ComplexMetric.C
index b7a708c..f830013 100644
--- a/lib/ComplexMetric.C
+++ b/lib/ComplexMetric.C
@@ -77,6 +77,7 @@ void Complex::append(SmartPointer<Generic> e)
   elements_[cardinal_] = e;
   ++cardinal_;
   coordKind(e->coordKind());
+  tellListeners();
   GYOTO_DEBUG << "done" << std::endl;
 }
 
@@ -107,6 +108,7 @@ void Complex::remove(size_t i) {
   }
   delete [] orig;
   if (!cardinal_) coordKind(GYOTO_COORDKIND_UNSPECIFIED);
+  tellListeners();
 }
 
 size_t Complex::getCardinal() const {return cardinal_; }
diff --git a/lib/Kerr2PN.C b/lib/Kerr2PN.C
index 536bfed..b07f08a 100644
--- a/lib/Kerr2PN.C
+++ b/lib/Kerr2PN.C
@@ -73,6 +73,7 @@ void Kerr2PN::spin(const double spin) {
     // If quadrupole tied to Kerr spin, update it
     Q_=-spin*spin; // Kerr quadrupole formula Q2 = -G^2 M^3/c^4 * spin^2.
   } // else they are independent parameters
+  tellListeners();
 }
 void Kerr2PN::quadrupole(const double QQ) {
   if (quadrupole_is_kerr_ && QQ>0.)
@@ -84,6 +85,7 @@ void Kerr2PN::quadrupole(const double QQ) {
     // If quadrupole tied to Kerr spin, update spin
     spin_=pow(-Q_,0.5); // Q_ = -spin^2 in geometrized units
   } // else they are independent parameters
+  tellListeners();
 }
 void Kerr2PN::kerrQuadrupole(bool t) {
   quadrupole_is_kerr_=t;}
diff --git a/lib/KerrBL.C b/lib/KerrBL.C
index 211bc57..42a62ff 100644
--- a/lib/KerrBL.C
+++ b/lib/KerrBL.C
@@ -103,7 +103,7 @@ void KerrBL::spin(const double a) {
 double KerrBL::spin() const { return spin_ ; }
 
 double KerrBL::difftol() const { return difftol_;}
-void KerrBL::difftol(double t) {difftol_=t;}
+void KerrBL::difftol(double t) {difftol_=t; tellListeners();}
 
 void KerrBL::horizonSecurity(const double drhor) {
   drhor_=drhor;
diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index d7be800..ebb4659 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -54,7 +54,7 @@ GYOTO_PROPERTY_VECTOR_DOUBLE(KonoplyaRezzollaZhidenko, DeltasAsymptotics, deltas
 GYOTO_PROPERTY_END(KonoplyaRezzollaZhidenko, Generic::properties)
 
 // accessors
-GYOTO_PROPERTY_ACCESSORS(KonoplyaRezzollaZhidenko, double, rms_, rms)
+GYOTO_PROPERTY_ACCESSORS_SPECIAL(KonoplyaRezzollaZhidenko, double, rms_, rms, tellListeners();, )
 
 void KonoplyaRezzollaZhidenko::deltashorizon(std::vector<double> const &v) {
   if (spin_ == 0.) GYOTO_ERROR("null spin case not supported");
@@ -99,6 +99,7 @@ void KonoplyaRezzollaZhidenko::deltashorizon(std::vector<double> const &v) {
   }
   for (size_t i=0; i<n; ++i) deltashorizon_[i]=v[i];
   for (size_t i=n; i<GYOTO_NB_DELTAHOR_MAX; ++i) deltashorizon_[i]=0.;
+  tellListeners();
 }
 std::vector<double> KonoplyaRezzollaZhidenko::deltashorizon() const {
   std::vector<double> v(GYOTO_NB_DELTAHOR_MAX, 0.);
@@ -120,6 +121,7 @@ void KonoplyaRezzollaZhidenko::deltasasymptotics(std::vector<double> const &v) {
     deltasasymptotics_[i]=v[i];
   }
   for (size_t i=n; i<GYOTO_NB_DELTAINF_MAX; ++i) deltasasymptotics_[i]=0.;
+  tellListeners();
 }
 std::vector<double> KonoplyaRezzollaZhidenko::deltasasymptotics() const {
   std::vector<double> v(GYOTO_NB_DELTAINF_MAX, 0.);
diff --git a/lib/ReissnerNordstrom.C b/lib/ReissnerNordstrom.C
index ebd093e..0e5c3e8 100644
--- a/lib/ReissnerNordstrom.C
+++ b/lib/ReissnerNordstrom.C
@@ -61,6 +61,7 @@ Gyoto::Metric::ReissnerNordstrom::~ReissnerNordstrom()
 // Mutators
 void ReissnerNordstrom::charge(const double charge) {
   charge_=charge;
+  tellListeners();
 }
 
 // Accessors
diff --git a/lib/RezzollaZhidenko.C b/lib/RezzollaZhidenko.C
index 8b18519..5285ac0 100644
--- a/lib/RezzollaZhidenko.C
+++ b/lib/RezzollaZhidenko.C
@@ -45,9 +45,9 @@ GYOTO_PROPERTY_VECTOR_DOUBLE(RezzollaZhidenko, BParam, bparam,
 GYOTO_PROPERTY_END(RezzollaZhidenko, Generic::properties)
 
 // accessors
-GYOTO_PROPERTY_ACCESSORS(RezzollaZhidenko, double, epsilon_, epsilon)
-GYOTO_PROPERTY_ACCESSORS(RezzollaZhidenko, double, rms_, rms)
-GYOTO_PROPERTY_ACCESSORS(RezzollaZhidenko, double, rmb_, rmb)
+GYOTO_PROPERTY_ACCESSORS_SPECIAL(RezzollaZhidenko, double, epsilon_, epsilon, tellListeners();, )
+GYOTO_PROPERTY_ACCESSORS_SPECIAL(RezzollaZhidenko, double, rms_, rms, tellListeners();, )
+GYOTO_PROPERTY_ACCESSORS_SPECIAL(RezzollaZhidenko, double, rmb_, rmb, tellListeners();, )
 
 void RezzollaZhidenko::aparam(std::vector<double> const &v) {
   size_t n = v.size();
@@ -58,6 +58,7 @@ void RezzollaZhidenko::aparam(std::vector<double> const &v) {
     if (v[i]<0.) GYOTO_ERROR("In RezzollaZhidenko: param < 0!");
   for (size_t i=0; i<n; ++i) aparam_[i]=v[i];
   for (size_t i=n; i<GYOTO_NBPARAM_MAX; ++i) aparam_[i]=0.;
+  tellListeners();
 }
 std::vector<double> RezzollaZhidenko::aparam() const {
   std::vector<double> v(GYOTO_NBPARAM_MAX, 0.);
@@ -73,6 +74,7 @@ void RezzollaZhidenko::bparam(std::vector<double> const &v) {
     if (v[i]<0.) GYOTO_ERROR("In RezzollaZhidenko: param < 0!");
   for (size_t i=0; i<n; ++i) bparam_[i]=v[i];
   for (size_t i=n; i<GYOTO_NBPARAM_MAX; ++i) bparam_[i]=0.;
+  tellListeners();
 }
 std::vector<double> RezzollaZhidenko::bparam() const {
   std::vector<double> v(GYOTO_NBPARAM_MAX, 0.);
diff --git a/lib/Shift.C b/lib/Shift.C
index 17c2646..d8ed055 100644
--- a/lib/Shift.C
+++ b/lib/Shift.C
@@ -94,6 +94,7 @@ void Shift::offset(std::vector<double> const &v) {
   if (v.size() !=4)
     GYOTO_ERROR("Shift offset needs exactly 4 tokens"); 
   for (int i=0; i<4; ++i) offset_[i]=v[i];
+  tellListeners();
 }
 
 std::vector<double> Shift::offset() const {
-- 
2.43.0


From 9ee0a6e383d13c4f3e018679530890fa05ca2c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:28 +0000
Subject: [PATCH 51/63] fix: a copied worldline did not follow the changes of
 its metric

---
 lib/Worldline.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index e590560..697f7a3 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -90,6 +90,7 @@ Worldline::Worldline(const Worldline& orig) :
     GYOTO_DEBUG << "cloning metric\n";
 #   endif
     metric_=orig.metric_->clone();
+    metric_->hook(this);
   }
 
   state_ = orig.state_->clone(this);
-- 
2.43.0


From f8b750ae9363857e0e5481fe707f40b499ae724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:28 +0000
Subject: [PATCH 52/63] fix: a worldline kept integrating the basis after its
 parallel transport was switched off

---
 lib/Worldline.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index 697f7a3..6bcbf37 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -1472,6 +1472,7 @@ void Worldline::parallelTransport(bool pt) {
     reInit();
   } else if (deinit) {
     eDeallocate();
+    reInit();
   }
 }
 bool Worldline::parallelTransport() const { return parallel_transport_; }
-- 
2.43.0


From 45a5c435069a78c606f0a5359f333b624a95ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:36 +0000
Subject: [PATCH 53/63] fix: endless loop on huge angles along a worldline

---
 lib/Worldline.C | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index 6bcbf37..a668aff 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -1268,6 +1268,10 @@ void Worldline::checkPhiTheta(double coord[8]) const{
     /* Transforms theta and phi in coord so that 
        theta is in [0,pi] and phi in [0,2pi] */
     double thetatmp=coord[2], phitmp=coord[3];
+    // past the horizon angles may be so large that 2pi is below their
+    // precision: don't loop forever
+    if (fabs(thetatmp)>1e6) thetatmp=fmod(thetatmp, 2.*M_PI);
+    if (fabs(phitmp)>1e6) phitmp=fmod(phitmp, 2.*M_PI);
     while (thetatmp>M_PI) thetatmp-=2.*M_PI;
     while (thetatmp<-M_PI) thetatmp+=2.*M_PI;//then theta in [-pi,pi]
     if (thetatmp<0.) {
-- 
2.43.0


From dd43128e113223e3a46870ea02b9b0647b515475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:55 +0000
Subject: [PATCH 54/63] fix: the norm of the velocity was compared with its
 square root, stopping resumed integrations

---
 lib/WorldlineIntegState.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 826cd09..6be9053 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -74,7 +74,7 @@ Worldline::IntegState::Generic::init(Worldline * line,
   line_=line;
   init();
   delta_=delta;
-  if (line_->getImin() <= line_->getImax() && gg_) norm_=normref_= gg_->norm(&coord[0],&coord[4]);
+  if (line_->getImin() <= line_->getImax() && gg_) norm_=normref_= gg_->ScalarProd(&coord[0],&coord[4],&coord[4]);
 }
 
 void Worldline::IntegState::Generic::checkNorm(double coord[8])
-- 
2.43.0


From 0a2790dfeb56c9c918b9926c8bb653736c9f3f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:48 +0000
Subject: [PATCH 55/63] fix: coordinates read on a worldline depended on which
 of them were asked for

---
 lib/Worldline.C | 76 +++++++++++++++++++------------------------------
 1 file changed, 29 insertions(+), 47 deletions(-)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index a668aff..8ce890d 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -847,6 +847,7 @@ void Worldline::getCoord(double const * const dates, size_t const n_dates,
   // For the interpolation
   int sz = parallel_transport_?16:8;
   state_t bestl(sz), besth(sz), resl(sz), resh(sz); // i/o for myrk4
+  state_t res(sz); // interpolated coordinates
   double factl, facth, bestaul, bestauh, restaul, restauh;
   double tausecond, dtaul, dtauh, dtl, dth, Dt=1., Dtm1=1., tauprimel, tauprimeh;
   double second, primel, primeh, pos[4], vel[3], tdot;
@@ -1164,6 +1165,7 @@ void Worldline::getCoord(double const * const dates, size_t const n_dates,
 
     dtl=date-bestl[0]; Dt=besth[0]-bestl[0]; Dtm1=1./Dt;
     facth=dtl*Dtm1; factl=1.-facth;
+    res[0]=date;
     if (otime)       otime[di] = bestaul*factl + bestauh*facth;
     if (getMass()) {
 #     if GYOTO_DEBUG_ENABLED
@@ -1185,51 +1187,17 @@ void Worldline::getCoord(double const * const dates, size_t const n_dates,
 
       tdot=metric_->SysPrimeToTdot(pos, vel);
 
-      if (x1)       x1[di] = pos[1];
-      if (x2)       x2[di] = pos[2];
-      if (x3)       x3[di] = pos[3];
-      if (x0dot) x0dot[di] = tdot;
-      if (x1dot) x1dot[di] = vel[0]*tdot;
-      if (x2dot) x2dot[di] = vel[1]*tdot;
-      if (x3dot) x3dot[di] = vel[2]*tdot;
+      for (i=1; i<=3; ++i) {
+	res[i] = pos[i];
+	res[i+4] = vel[i-1]*tdot;
+      }
+      res[4] = tdot;
       if (parallel_transport_) GYOTO_ERROR("Parallel transport not implemented for massive particles.");
     } else {
       // Photon: don't be so elaborate, we certainly don't need it... yet
-      if (x1)       x1[di] = bestl[ 1]*factl + besth[ 1]*facth;
-      if (x2)       x2[di] = bestl[ 2]*factl + besth[ 2]*facth;
-      if (x3)       x3[di] = bestl[ 3]*factl + besth[ 3]*facth;
-      if (x0dot) x0dot[di] = bestl[ 4]*factl + besth[ 4]*facth;
-      if (x1dot) x1dot[di] = bestl[ 5]*factl + besth[ 5]*facth;
-      if (x2dot) x2dot[di] = bestl[ 6]*factl + besth[ 6]*facth;
-      if (x3dot) x3dot[di] = bestl[ 7]*factl + besth[ 7]*facth;
-      if (parallel_transport_) {
-        if (ep0)   ep0[di] = bestl[ 8]*factl + besth[ 8]*facth;
-        if (ep1)   ep1[di] = bestl[ 9]*factl + besth[ 9]*facth;
-        if (ep2)   ep2[di] = bestl[10]*factl + besth[10]*facth;
-        if (ep3)   ep3[di] = bestl[11]*factl + besth[11]*facth;
-        if (et0)   et0[di] = bestl[12]*factl + besth[12]*facth;
-        if (et1)   et1[di] = bestl[13]*factl + besth[13]*facth;
-        if (et2)   et2[di] = bestl[14]*factl + besth[14]*facth;
-        if (et3)   et3[di] = bestl[15]*factl + besth[15]*facth;
-        // Check the interpolated basis and apply corrections if needed
-        if (ep0 && ep1 && ep2 && ep3 && et0 && et1 && et2 && et3 && check_basis_) {
-          state_t xx;
-          xx = {date, x1[di], x2[di], x3[di], x0dot[di], x1dot[di], x2dot[di], x3dot[di], ep0[di], ep1[di], ep2[di], ep3[di], et0[di], et1[di], et2[di], et3[di]};
-          checkBasis(xx);
-          x0dot[di] = xx[4];
-          x1dot[di] = xx[5];
-          x2dot[di] = xx[6];
-          x3dot[di] = xx[7];
-          ep0[di] = xx[8];
-          ep1[di] = xx[9];
-          ep2[di] = xx[10];
-          ep3[di] = xx[11];
-          et0[di] = xx[12];
-          et1[di] = xx[13];
-          et2[di] = xx[14];
-          et3[di] = xx[15];
-        }
-      }
+      for (i=1; i<sz; ++i) res[i] = bestl[i]*factl + besth[i]*facth;
+      // Check the interpolated basis and apply corrections if needed
+      if (parallel_transport_ && check_basis_) checkBasis(res);
     }
 
     /* For spherical-like coordinates,
@@ -1239,11 +1207,25 @@ void Worldline::getCoord(double const * const dates, size_t const n_dates,
        that could lead theta,phi out of their
        correct ranges.
     */
-    if (metric_->coordKind() == GYOTO_COORDKIND_SPHERICAL
-	&& x2 && x3 && x2dot){
-      double pos2[8]={0.,0.,x2[di],x3[di],0.,0.,x2dot[di],0.};
-      checkPhiTheta(pos2);
-      x2[di]=pos2[2];x3[di]=pos2[3];x2dot[di]=pos2[6];
+    if (metric_->coordKind() == GYOTO_COORDKIND_SPHERICAL)
+      checkPhiTheta(&res[0]);
+
+    if (x1)       x1[di] = res[1];
+    if (x2)       x2[di] = res[2];
+    if (x3)       x3[di] = res[3];
+    if (x0dot) x0dot[di] = res[4];
+    if (x1dot) x1dot[di] = res[5];
+    if (x2dot) x2dot[di] = res[6];
+    if (x3dot) x3dot[di] = res[7];
+    if (parallel_transport_) {
+      if (ep0)   ep0[di] = res[ 8];
+      if (ep1)   ep1[di] = res[ 9];
+      if (ep2)   ep2[di] = res[10];
+      if (ep3)   ep3[di] = res[11];
+      if (et0)   et0[di] = res[12];
+      if (et1)   et1[di] = res[13];
+      if (et2)   et2[di] = res[14];
+      if (et3)   et3[di] = res[15];
     }
     
   }
-- 
2.43.0


From 678a7c9bc74df2a0ccddf732ad117c8f80f0b727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:14 +0000
Subject: [PATCH 56/63] fix: only the first transmission matrix was copied with
 a photon

---
 lib/Photon.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Photon.C b/lib/Photon.C
index 2a0a84a..52baa71 100644
--- a/lib/Photon.C
+++ b/lib/Photon.C
@@ -88,7 +88,8 @@ Photon::Photon(const Photon& o) :
       // Eigen::Matrix4d has a non trivial constructor,
       // let's construct it normally with new, then copy
       _allocateTransmissionMatrix();
-      *transmissionMatrix_ = *(o.transmissionMatrix_);
+      for (size_t i=0; i<nsamples; ++i)
+	transmissionMatrix_[i] = o.transmissionMatrix_[i];
     }
   }
 }
-- 
2.43.0


From 208510dfd908b8f92369cf863a2cb7e4d4ed6cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:14 +0000
Subject: [PATCH 57/63] fix: compound objects and metrics leaked their array of
 elements

---
 lib/ComplexAstrobj.C | 1 +
 lib/ComplexMetric.C  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/ComplexAstrobj.C b/lib/ComplexAstrobj.C
index 50d4069..e71b746 100644
--- a/lib/ComplexAstrobj.C
+++ b/lib/ComplexAstrobj.C
@@ -55,6 +55,7 @@ Complex *Complex::clone() const {return new Complex(*this); }
 Complex::~Complex()
 {
   if (cardinal_) for (size_t i=0; i< cardinal_; ++i) elements_[i] = NULL;
+  delete [] elements_;
 }
 
 bool Complex::isThreadSafe() const {
diff --git a/lib/ComplexMetric.C b/lib/ComplexMetric.C
index f830013..39a1a07 100644
--- a/lib/ComplexMetric.C
+++ b/lib/ComplexMetric.C
@@ -54,6 +54,7 @@ Complex *Complex::clone() const {return new Complex(*this); }
 Complex::~Complex()
 {
   if (cardinal_) for (size_t i=0; i< cardinal_; ++i) elements_[i] = NULL;
+  delete [] elements_;
 }
 
 bool Complex::isThreadSafe() const {
-- 
2.43.0


From 62bbc69bc2bc4858070d82205e175539f39432c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:48 +0000
Subject: [PATCH 58/63] fix: the name of the classic Cash-Karp integrator was
 not a known integrator

---
 lib/WorldlineIntegState.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 6be9053..284c979 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -423,7 +423,7 @@ std::string Worldline::IntegState::Boost::kind() {
   if (kind_== Kind::runge_kutta_cash_karp54) return "runge_kutta_cash_karp54";
   if (kind_== Kind::runge_kutta_fehlberg78) return "runge_kutta_fehlberg78";
   if (kind_== Kind::runge_kutta_dopri5) return "runge_kutta_dopri5";
-  if (kind_== Kind::runge_kutta_cash_karp54_classic) return "runge_kutta_cash_karp5";
+  if (kind_== Kind::runge_kutta_cash_karp54_classic) return "runge_kutta_cash_karp54_classic";
   GYOTO_ERROR("unknown enum value");
   return "error";
 } 
-- 
2.43.0


From a7ffb22b4859791987289374b2c78b51ffa384fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:34 +0000
Subject: [PATCH 59/63] fix: Integ31 was lost when copying a worldline or
 changing its integrator

---
 lib/Worldline.C           |  2 ++
 lib/WorldlineIntegState.C | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index 8ce890d..b1e3a7e 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -373,12 +373,14 @@ void Worldline::tell(Gyoto::Hook::Teller* msg) {
 }
 
 void Worldline::integrator(std::string const &type) {
+  bool integ = state_() ? state_->integ31() : false;
   if (type=="Legacy") state_ = new IntegState::Legacy(this);
 #ifdef GYOTO_HAVE_BOOST_INTEGRATORS
   else state_ = new IntegState::Boost(this, type);
 #else
   else GYOTO_ERROR("unrecognized integrator (recompile with boost?)");
 #endif
+  state_->integ31(integ);
 }
 
 std::string Worldline::integrator() const {
diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 284c979..0a5bd30 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -119,7 +119,11 @@ Worldline::IntegState::Legacy::Legacy(Worldline *parent) : Generic(parent)
 
 Worldline::IntegState::Legacy *
 Worldline::IntegState::Legacy::clone(Worldline *newparent) const
-{ return new Legacy(newparent); }
+{
+  Legacy * res = new Legacy(newparent);
+  res->integ_31_ = integ_31_;
+  return res;
+}
 
 void
 Worldline::IntegState::Legacy::init(Worldline * line,
@@ -234,7 +238,11 @@ void Worldline::IntegState::Boost::init()
 
 Worldline::IntegState::Boost *
 Worldline::IntegState::Boost::clone(Worldline*newparent) const
-{ return new Boost(newparent, kind_); }
+{
+  Boost * res = new Boost(newparent, kind_);
+  res->integ_31_ = integ_31_;
+  return res;
+}
 
 
 
-- 
2.43.0


From f4bac16dbeda5e7efb0f0340b223c6d32a63c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:08 +0000
Subject: [PATCH 60/63] fix: inverse of 4x4 matrices was wrong unless they are
 sparse

---
 lib/Utils.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Utils.C b/lib/Utils.C
index 0f4e500..e764060 100644
--- a/lib/Utils.C
+++ b/lib/Utils.C
@@ -393,7 +393,8 @@ void Gyoto::matrix4Invert(double Am1[4][4], double const A[4][4]) {
   for (j=3; j>=0; --j) {
     for (jj = j-1; jj >= 0; --jj) {
       fact = tmp[j][jj];
-      for (i=0; i<4; ++i) tmp[i][jj] -= fact*tmp[i][j];
+      // below the diagonal, tmp has not been set to zero
+      for (i=j; i<4; ++i) tmp[i][jj] -= fact*tmp[i][j];
       for (i=0; i<4; ++i) Am1[i][jj] -= fact*Am1[i][j];
     }
   }
-- 
2.43.0


From c6a113afc83f3bec45c4f9fe6e233cac0c323386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:15 +0000
Subject: [PATCH 61/63] fix: copying a compound object without a metric took
 away those of its parts

---
 lib/ComplexAstrobj.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ComplexAstrobj.C b/lib/ComplexAstrobj.C
index e71b746..b2ab1ba 100644
--- a/lib/ComplexAstrobj.C
+++ b/lib/ComplexAstrobj.C
@@ -47,7 +47,7 @@ Complex::Complex(const Complex& o) :
       elements_[i] = o[i]->clone();
     }
   }
-  metric(gg_); // to set the same metric in all elements
+  if (gg_) metric(gg_); // to set the same metric in all elements
 }
 Complex *Complex::clone() const {return new Complex(*this); }
 
-- 
2.43.0


From 1e822ce71d3282f963cad90585063a7cd862b5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:40 +0000
Subject: [PATCH 62/63] fix: a converter was unusable after refusing units

---
 lib/Converters.C | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Converters.C b/lib/Converters.C
index e2933e1..d24aeb2 100644
--- a/lib/Converters.C
+++ b/lib/Converters.C
@@ -153,10 +153,11 @@ void Converter::reset()
 void Converter::reset(const Gyoto::Units::Unit &from,
 		      const Gyoto::Units::Unit &to)
 {
-  if (converter_) { cv_free(converter_); converter_=NULL; }
   if ((ut_unit*)(from) && (ut_unit*)(to)) {
-    if (areConvertible(from, to)) converter_ = ut_get_converter(from, to);
-    else {
+    if (areConvertible(from, to)) {
+      if (converter_) { cv_free(converter_); converter_=NULL; }
+      converter_ = ut_get_converter(from, to);
+    } else {
       stringstream ss;
       ss << "Unsupported conversion: from \"" << string(from)
 	 << "\" to " << string(to) << "\"";
-- 
2.43.0


From 7427876ce7a1d255c368ee124c877dac14794c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:07 +0000
Subject: [PATCH 63/63] fix: lengths read in units of time were multiplied
 instead of divided by c

---
 lib/Converters.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Converters.C b/lib/Converters.C
index d24aeb2..642c333 100644
--- a/lib/Converters.C
+++ b/lib/Converters.C
@@ -221,7 +221,7 @@ double Gyoto::Units::FromMeters(double val, const string &unit,
 # ifdef HAVE_UDUNITS
   Unit to (unit);
   if (areConvertible(to, *Meter)) return Meter->From(val, to);
-  if (areConvertible(to, *Second)) return Second->From(val*GYOTO_C, to);
+  if (areConvertible(to, *Second)) return Second->From(val/GYOTO_C, to);
   return FromHerz(GYOTO_C/val, unit);
 # else
   if (unit=="cm")          return val * 1e2;
-- 
2.43.0

