From f56dc77939999c008904eaad65f9429321c14796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 01/13] fix: keep the latitude histogram of
 distribute_colatitudes inside its bins

A sample on the equator was counted in a bin past the end of the array and
the search for the next boundary read past the end when no hits were left.
---
 src/conviqt_math.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 4d3c729..6ae7901 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -291,6 +291,9 @@ void convolver::distribute_colatitudes(levels::arr<double> &pntarr,
             beta = pi - beta;
         }
         long ibin = beta / wbin;
+        if (ibin >= nbin) {
+            ibin = nbin - 1; // the equator belongs to the last bin
+        }
         ++my_hits[ibin];
     }
 
@@ -308,6 +311,9 @@ void convolver::distribute_colatitudes(levels::arr<double> &pntarr,
         long bin_hit = 0;
         while (ibin < nbin) {
             ++ibin;
+            if (ibin == nbin) {
+                break;
+            }
             // Skip over isolatitudes that have no hits
             if (hits[ibin] != 0) {
                 bin_hit += hits[ibin];
-- 
2.43.0


From 9c11b1bba55477acdfeda76f8df9c7ec49d871c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 02/13] fix: refuse a co-latitude that is not a number

NaN compares false with both limits and passed the check.
---
 src/conviqt_math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 6ae7901..e77006a 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -457,7 +457,7 @@ void convolver::todRedistribution5cm(levels::arr<double> pntarr,
         int corenum = 0;
         for (long ii = 0; ii < totsize; ++ii) {
             double theta = pntarr[5 * ii + 1];
-            if (theta < 0 || theta > pi) {
+            if (!(theta >= 0 && theta <= pi)) {
                 throw std::runtime_error("ERROR: Illegal latitude in pntarr: theta = " +
                                          std::to_string(theta) + " not in 0..pi");
             }
@@ -1513,7 +1513,7 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     for (long i = 0; i < totsize; ++i) {
         double theta = pntarr[5 * i + 1];
-        if (theta < 0 || theta > pi) {
+        if (!(theta >= 0 && theta <= pi)) {
             throw std::runtime_error("convolver::convolve: Illegal theta: " +
                                      std::to_string(theta) + " not in 0..pi");
         }
-- 
2.43.0


From 5f04fdb32700b7f9bfdb21c0e883e22d6dbb638c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 03/13] fix: let processes without samples take part in the
 exchanges of convolve

A process that neither sends nor receives samples skipped the collective
calls the others were waiting in.  Two empty buffers are no longer taken
for identical ones.
---
 levels/cxxsupport/mpi_support.cc |  5 ++++-
 src/conviqt_math.cpp             | 30 ++++++++++++++----------------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/levels/cxxsupport/mpi_support.cc b/levels/cxxsupport/mpi_support.cc
index 21ee6b5..d869903 100644
--- a/levels/cxxsupport/mpi_support.cc
+++ b/levels/cxxsupport/mpi_support.cc
@@ -53,7 +53,10 @@ using namespace std;
 namespace {
 
 void assert_unequal (const void *a, const void *b)
-  { levels_assert (a!=b,"input and output buffers must not be identical"); }
+  {
+  levels_assert ((a!=b)||(a==0),
+    "input and output buffers must not be identical");
+  }
 
 } // unnamed namespace
 
diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index e77006a..02295e8 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1561,14 +1561,14 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     // Redistribute the data from pntarr2 to outpntarr
 
-    if (totsize != 0 || outBetaSegSize != 0) {
-        mpiMgr.barrier();
-        t1 = mpiMgr.Wtime();
-        mpiMgr.all2allv(pntarr2, inBetaSeg, inOffset,
-                        outpntarr, outBetaSeg, outOffset, outBetaSegSize);
-        t_alltoall += mpiMgr.Wtime() - t1;
-        ++n_alltoall;
-    }
+    // (collective: a process without samples takes part as well)
+
+    mpiMgr.barrier();
+    t1 = mpiMgr.Wtime();
+    mpiMgr.all2allv(pntarr2, inBetaSeg, inOffset,
+                    outpntarr, outBetaSeg, outOffset, outBetaSegSize);
+    t_alltoall += mpiMgr.Wtime() - t1;
+    ++n_alltoall;
 
     if (totsize > 0) {
         pntarr2.dealloc();
@@ -1626,14 +1626,12 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     // Communicate the pointing and TOD to the original owners
 
-    if (totsize != 0 || ntod != 0) {
-        mpiMgr.barrier();
-        t1 = mpiMgr.Wtime();
-        mpiMgr.all2allv(outpntarr, outBetaSeg, outOffset, pntarr,
-                        inBetaSeg, inOffset, 5 * totsize);
-        t_alltoall += mpiMgr.Wtime() - t1;
-        ++n_alltoall;
-    }
+    mpiMgr.barrier();
+    t1 = mpiMgr.Wtime();
+    mpiMgr.all2allv(outpntarr, outBetaSeg, outOffset, pntarr,
+                    inBetaSeg, inOffset, 5 * totsize);
+    t_alltoall += mpiMgr.Wtime() - t1;
+    ++n_alltoall;
 
     if (ntod != 0) {
         outpntarr.dealloc();
-- 
2.43.0


From bbfcba7d1698ce363cece93bd47ccfe7b1a474a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 04/13] fix: use the requested beam mmax, not its lmax

---
 src/conviqt_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index ebd7413..3e687f8 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -45,7 +45,7 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     }
     // mmax
     if (beammmax > 0) {
-        mmax = beamlmax;
+        mmax = beammmax;
     } else {
         mmax = std::min((int)lmax, mmax_file);
     }
-- 
2.43.0


From b077e2af2a13e338c22d98ff011614fc8b5e8292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 05/13] fix: a beam that is read again is not normalized

---
 src/conviqt_io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index 3e687f8..eb1e5d3 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -51,6 +51,9 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     }
     fname = infile_beam;
 
+    // New coefficients replace those that may have been normalized
+    normalized_ = false;
+
     blmT_.Set(lmax, mmax);
     if (pol) {
         blmG_.Set(lmax, mmax);
-- 
2.43.0


From 9c9fa8b602e045e181c63748036b28552b4edefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 06/13] fix: the default convolver lmax must exist in both
 expansions

---
 src/conviqt_math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 02295e8..1413498 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -121,7 +121,7 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
     const int lmax_sky = s->get_lmax();
     const int lmax_beam = b->get_lmax();
     if (lmax < 0) {
-        this->lmax = std::max(lmax_beam, lmax_sky);
+        this->lmax = std::min(lmax_beam, lmax_sky);
     } else if (lmax > lmax_sky || lmax > lmax_beam) {
         throw std::runtime_error("Convolver lmax exceeds input expansion order.");
     }
-- 
2.43.0


From cff3745e3c231ea35a3015d3e639cb0c095fa070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 07/13] fix: wrap the longitude stencil when it is wider than
 the ring

With order > 2 * lmax the stencil covers more than a full turn and the
index left the data cube.
---
 src/conviqt_math.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 1413498..2166859 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1407,9 +1407,10 @@ void convolver::conviqt_tod_loop(levels::arr<long> &lowerIndex,
             frac = levels::fmodulo(frac, double(nphi));
             int iphi0 = int(frac) - ioffset;
             frac -= iphi0;
-            if (iphi0 >= nphi) {
+            while (iphi0 >= nphi) {
                 iphi0 -= nphi;
-            } else if (iphi0 < 0) {
+            }
+            while (iphi0 < 0) {
                 iphi0 += nphi;
             }
             weight_ncm(frac, wgt2);
@@ -1428,7 +1429,7 @@ void convolver::conviqt_tod_loop(levels::arr<long> &lowerIndex,
             for (int iphi = 0; iphi < npoints; ++iphi) {
                 const double weight = wgt2[iphi] * weight1;
                 long iphinew = iphi0 + iphi;
-                if (iphinew >= nphi) {
+                while (iphinew >= nphi) {
                     iphinew -= nphi;
                 }
                 const xcomplex<double> *ca = &(conviqtarr[iphinew][0]);
-- 
2.43.0


From d6ade5a84652a217719d20314477bc9031a587ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 08/13] fix: no exception leaves the C interface

conviqt_convolver_convolve rethrew, and two constructors were not guarded.
---
 src/cconviqt.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/cconviqt.cpp b/src/cconviqt.cpp
index ee7e044..6fdfde6 100644
--- a/src/cconviqt.cpp
+++ b/src/cconviqt.cpp
@@ -189,7 +189,11 @@ extern "C" {
     void *conviqt_detector_new() { return new(std::nothrow) conviqt::detector; }
 
     void *conviqt_detector_new_with_id(char *det_id) {
-        return new(std::nothrow) conviqt::detector(det_id);
+        try {
+            return new(std::nothrow) conviqt::detector(det_id);
+        } catch (...) {
+            return NULL;
+        }
     }
 
     int conviqt_detector_del(void *ptr) {
@@ -314,9 +318,17 @@ extern "C" {
         conviqt::beam *beamref = reinterpret_cast< conviqt::beam * >(beamptr);
         conviqt::detector *detref = reinterpret_cast< conviqt::detector * >(detptr);
 
-        return new(std::nothrow) conviqt::convolver(skyref, beamref, detref, pol,
-                                                    lmax, beammmax, order,
-                                                    verbosity, comm);
+        try {
+            return new(std::nothrow) conviqt::convolver(skyref, beamref, detref, pol,
+                                                        lmax, beammmax, order,
+                                                        verbosity, comm);
+        } catch (std::exception &e) {
+            std::cerr << "conviqt_convolver_new threw an exception: " << e.what() << std::endl;
+            return NULL;
+        } catch (...) {
+            std::cerr << "conviqt_convolver_new threw an exception." << std::endl;
+            return NULL;
+        }
     }
 
     int conviqt_convolver_del(void *ptr) {
@@ -377,8 +389,7 @@ extern "C" {
 
             cnvref->convolve(*pntref, calibrate);
         } catch (...) {
-            std::cout << "convolve threw an exception:" << std::endl;
-            throw;
+            std::cout << "convolve threw an exception" << std::endl;
             return -1;
         }
         return 0;
-- 
2.43.0


From 552d5721acc3c38f254ed928d654df9b58f9a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 09/13] fix: a convolver does not use a beam mmax beyond its
 lmax

---
 src/conviqt_math.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 2166859..b374d5c 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -132,6 +132,8 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
     } else if (beammmax > mmax_beam) {
         throw std::runtime_error("Convolver mmax exceeds input expansion order.");
     }
+    // there are no coefficients with m > l
+    this->beammmax = std::min(this->beammmax, this->lmax);
 
     // data cube gridding
 
-- 
2.43.0


From 0158d1677de6751dfe69d78986bcffafee94c938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 10/13] fix: integer square root near the limits of the 64-bit
 types

The squares of the candidate roots are not representable there; the
comparison now divides instead.
---
 levels/cxxsupport/ls_math_utils.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/levels/cxxsupport/ls_math_utils.h b/levels/cxxsupport/ls_math_utils.h
index 1f0bc5d..46f9a4f 100644
--- a/levels/cxxsupport/ls_math_utils.h
+++ b/levels/cxxsupport/ls_math_utils.h
@@ -110,9 +110,10 @@ template<typename I> struct isqrt_helper__ <I, true>
     using namespace std;
     I res = sqrt(double(arg)+0.5);
     if (arg<(int64(1)<<50)) return uint32(res);
-    if (res*res>arg)
+    // compare by division: the squares may not be representable
+    if (res>arg/res)
       --res;
-    else if ((res+1)*(res+1)<=arg)
+    else if (res+1<=arg/(res+1))
       ++res;
     return uint32(res);
     }
-- 
2.43.0


From 2529302f7f831b4dac398096f1a481f96f261cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 11/13] fix: send-receive pairs transfer data

sendrecv and sendrecv_replace returned at once on every process that was
not both the source and the destination, so nothing was exchanged.
---
 levels/cxxsupport/mpi_support.cc | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/levels/cxxsupport/mpi_support.cc b/levels/cxxsupport/mpi_support.cc
index d869903..26b63ff 100644
--- a/levels/cxxsupport/mpi_support.cc
+++ b/levels/cxxsupport/mpi_support.cc
@@ -210,7 +210,6 @@ void MPI_Manager::recvRawVoid (void *data, NDT type, tsize num, tsize src) const
 void MPI_Manager::sendrecvRawVoid (const void *sendbuf, tsize sendcnt,
   tsize dest, void *recvbuf, tsize recvcnt, tsize src, NDT type) const
   {
-  if ((rank_!=int(src)) || (rank_!=int(dest))) return;
   assert_unequal(sendbuf,recvbuf);
 
   MPI_Datatype dtype = ndt2mpi(type);
@@ -220,9 +219,6 @@ void MPI_Manager::sendrecvRawVoid (const void *sendbuf, tsize sendcnt,
 void MPI_Manager::sendrecv_replaceRawVoid (void *data, NDT type, tsize num,
   tsize dest, tsize src) const
   {
-  if (dest==src) return;
-  if ((rank_!=int(src)) || (rank_!=int(dest))) return;
-
   MPI_Sendrecv_replace (data,num,ndt2mpi(type),dest,0,src,0,LS_COMM,
     MPI_STATUS_IGNORE);
   }
-- 
2.43.0


From f87f7c4e989cedd8476cf0a92beb70c8038ab147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:00 +0000
Subject: [PATCH 12/13] fix: no exception leaves conviqt_sky_new and
 conviqt_beam_new

The expansions allocate in their constructors; std::nothrow covers the object only.
---
 src/cconviqt.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cconviqt.cpp b/src/cconviqt.cpp
index 6fdfde6..f656943 100644
--- a/src/cconviqt.cpp
+++ b/src/cconviqt.cpp
@@ -9,7 +9,13 @@ extern "C" {
 
 #include <string.h>
 
-    void *conviqt_beam_new() { return new(std::nothrow) conviqt::beam; }
+    void *conviqt_beam_new() {
+        try {
+            return new(std::nothrow) conviqt::beam;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     int conviqt_beam_del(void *ptr) {
         try {
@@ -103,7 +109,13 @@ extern "C" {
         }
     }
 
-    void *conviqt_sky_new() { return new(std::nothrow) conviqt::sky; }
+    void *conviqt_sky_new() {
+        try {
+            return new(std::nothrow) conviqt::sky;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     int conviqt_sky_del(void *ptr) {
         try {
-- 
2.43.0


From fd509680cbe678c7a7ebbdfaa61435bf0761e5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:01 +0000
Subject: [PATCH 13/13] fix: no division 0/0 once the last process has its
 latitudes

get_latitude_tables divided the latitudes left by the processes left when
both were zero and converted the NaN to long, which is undefined.
---
 src/conviqt_math.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index b374d5c..be69e16 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -895,7 +895,9 @@ void convolver::get_latitude_tables(const long NThetaIndex1,
                 nassigned = 0;
                 // Adjust latitudes per core to avoid cores not
                 // having any latitudes
-                ntheta_core = ceil(nleft / double(cores - core));
+                if (core < cores) {
+                    ntheta_core = ceil(nleft / double(cores - core));
+                }
             }
         }
     }
-- 
2.43.0

