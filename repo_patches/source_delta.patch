From cef6b351179b4d30b59e957618a494c9349e4c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:52 +0000
Subject: [PATCH 01/16] fix: scale all points of the input layout after an
 inverse FFT

The result of a backward transform is in the input layout, so the number
of points to normalize is insize.  Using outsize left points unscaled (or
scaled memory past the tile) when a rank owns different counts of points
in the input and output layouts.
---
 src/fft2d.cpp | 4 ++--
 src/fft3d.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index e5fe4c7..44b0e2e 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -411,7 +411,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   if (exchange) fftsize = MAX(fftsize,bricksize);
 
   // setup for 2 sets of 1d FFTs, also scaling normalization
-  // outsize must be already set for setup_ffts() to use to setup scaling
+  // insize must be already set, result of scaled inverse FFT is in input layout
   // norm must allow for nfast*nmid*nslow to exceed a 4-byte int (2B)
 
   fft_fast = new FFT1d;
@@ -428,7 +428,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   setup_ffts();
 
   norm = 1.0/((bigint) nfast * nslow);
-  normnum = outsize;
+  normnum = insize;
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index a643992..a49cb01 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -437,7 +437,7 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   if (exchange) fftsize = MAX(fftsize,bricksize);
 
   // setup for 3 sets of 1d FFTs, also scaling normalization
-  // outsize must be already set for setup_ffts() to use to setup scaling
+  // insize must be already set, result of scaled inverse FFT is in input layout
   // norm must allow for nfast*nmid*nslow to exceed a 4-byte int (2B)
 
   fft_fast = new FFT1d;
@@ -459,7 +459,7 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   setup_ffts();
 
   norm = 1.0/((bigint) nfast * nmid*nslow);
-  normnum = outsize;
+  normnum = insize;
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
-- 
2.43.0


From 210f6264adb89e70ca730b37c963334695b10d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:52 +0000
Subject: [PATCH 02/16] fix: last remap of an out of place inverse FFT must act
 on the result

The last stage read the caller's untouched input instead of the
intermediate data in out.
---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 44b0e2e..5e20db9 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -558,7 +558,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
       perform_ffts((FFT_DATA *) data,flag,fft_fast);
     }
 
-    if (remap_postfast) remap(in,out,remap_postfast);
+    if (remap_postfast) remap(data,data,remap_postfast);
   }
 
   if (flag == BACKWARD && scaled && !remaponly) scale_ffts((FFT_DATA *) data);
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index a49cb01..8299c61 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -598,7 +598,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
       perform_ffts((FFT_DATA *) data,flag,fft_fast);
     }
 
-    if (remap_postfast) remap(in,out,remap_postfast);
+    if (remap_postfast) remap(data,data,remap_postfast);
   }
 
   if (flag == BACKWARD && scaled && !remaponly) scale_ffts((FFT_DATA *) data);
-- 
2.43.0


From 5ea02e2a161e698eb2c257f84fb9f8635c495766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:52 +0000
Subject: [PATCH 03/16] fix: copy both parts of each complex value in out of
 place operations

insize and outsize count complex values, but only half of the scalars
were copied when no initial remap is needed.
---
 src/fft2d.cpp | 12 ++++++------
 src/fft3d.cpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 5e20db9..30ba939 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -533,7 +533,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_fastslow) remap(data,data,remap_fastslow);
@@ -548,7 +548,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_slowfast) remap(data,data,remap_slowfast);
@@ -600,7 +600,7 @@ void FFT2d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remap_fastslow) remap(data,data,remap_fastslow);
 
@@ -609,7 +609,7 @@ void FFT2d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remap_slowfast) remap(data,data,remap_slowfast);
 
@@ -636,7 +636,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   if (flag == FORWARD || inout_layout_same) {
     if (which == 1) {
       if (remap_prefast) remap(in,out,remap_prefast);
-      else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_fastslow) remap(in,out,remap_fastslow);
     } else if (which == 3) {
@@ -646,7 +646,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   } else {
     if (which == 3) {
       if (remap_preslow) remap(in,out,remap_preslow);
-      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_slowfast) remap(in,out,remap_slowfast);
     } else if (which == 1) {
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 8299c61..f57eb4c 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -567,7 +567,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_fastmid) remap(data,data,remap_fastmid);
@@ -585,7 +585,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_slowmid) remap(data,data,remap_slowmid);
@@ -641,7 +641,7 @@ void FFT3d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remap_fastmid) remap(data,data,remap_fastmid);
     if (remap_midslow) remap(data,data,remap_midslow);
@@ -651,7 +651,7 @@ void FFT3d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remap_slowmid) remap(data,data,remap_slowmid);
     if (remap_midfast) remap(data,data,remap_midfast);
@@ -679,7 +679,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   if (flag == FORWARD || inout_layout_same) {
     if (which == 1) {
       if (remap_prefast) remap(in,out,remap_prefast);
-      else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_fastmid) remap(in,out,remap_fastmid);
     } else if (which == 3) {
@@ -691,7 +691,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   } else {
     if (which == 4) {
       if (remap_preslow) remap(in,out,remap_preslow);
-      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     } else if (which == 3) {
       if (remap_slowmid) remap(in,out,remap_slowmid);
     } else if (which == 2) {
-- 
2.43.0


From 95206c2bdd6da33f4a592b3a14ab3db79263d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:33 +0000
Subject: [PATCH 04/16] fix: second half of a two-stage remap must act on the
 result of the first

With exchange = 1 an out of place single remap moved the caller's input
once more instead of the brick data the first half had produced.
---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 30ba939..f605665 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -1056,7 +1056,7 @@ void FFT2d::remap(FFT_SCALAR *in, FFT_SCALAR *out, Remap *remap)
 {
   remap->remap2d->remap(in,out,sendbuf,recvbuf);
   if (remap->remap2d_extra) 
-    remap->remap2d_extra->remap(in,out,sendbuf,recvbuf);
+    remap->remap2d_extra->remap(out,out,sendbuf,recvbuf);
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index f57eb4c..176b9e2 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1117,7 +1117,7 @@ void FFT3d::remap(FFT_SCALAR *in, FFT_SCALAR *out, Remap *remap)
 {
   remap->remap3d->remap(in,out,sendbuf,recvbuf);
   if (remap->remap3d_extra) 
-    remap->remap3d_extra->remap(in,out,sendbuf,recvbuf);
+    remap->remap3d_extra->remap(out,out,sendbuf,recvbuf);
 }
 
 /* ----------------------------------------------------------------------
-- 
2.43.0


From d89defcb85bb75fb5b7cb074233e0b02d0ffc492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:33 +0000
Subject: [PATCH 05/16] fix: account for brick to fast pencil remap in 3d
 buffer sizes

The send/recv sizes of this remap of the inverse FFT with exchange = 1
were not included in the maximum, so buffers could be too short for it.
---
 src/fft3d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 176b9e2..ce15931 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1372,6 +1372,8 @@ void FFT3d::remap_inverse_create(int &sendsize, int &recvsize)
       setup(brick_jlo,brick_jhi,brick_klo,brick_khi,brick_ilo,brick_ihi,
             fast_jlo,fast_jhi,fast_klo,fast_khi,fast_ilo,fast_ihi,
             2,2,0,ssize,rsize);
+    sendsize = MAX(sendsize,ssize);
+    recvsize = MAX(recvsize,rsize);
   }
 
   // remap uses I=fast, J=mid, K=slow, b/c current permute=0
-- 
2.43.0


From f84a7e46e7019300d76e87839f55b36c8a50efe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:33 +0000
Subject: [PATCH 06/16] fix: only_one_remap() must copy when the last remap is
 not needed

As for the first remap, out was left unset by an out of place call when
the pencil layout already is the final layout.
---
 src/fft2d.cpp | 2 ++
 src/fft3d.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index f605665..d6752e8 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -641,6 +641,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_fastslow) remap(in,out,remap_fastslow);
     } else if (which == 3) {
       if (remap_postslow) remap(in,out,remap_postslow);
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     }
 
   } else {
@@ -651,6 +652,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_slowfast) remap(in,out,remap_slowfast);
     } else if (which == 1) {
       if (remap_postfast) remap(in,out,remap_postfast);
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     }
   }
 }
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index ce15931..1a28e9e 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -686,6 +686,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_midslow) remap(in,out,remap_midslow);
     } else if (which == 4) {
       if (remap_postslow) remap(in,out,remap_postslow);
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     }
 
   } else {
@@ -698,6 +699,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_midfast) remap(in,out,remap_midfast);
     } else if (which == 1) {
       if (remap_postfast) remap(in,out,remap_postfast);
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     }
   }
 }
-- 
2.43.0


From 670d867a8f3391e6ea2bc1d810df348e7dfa62be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:33 +0000
Subject: [PATCH 07/16] fix: 2d memcpy pack/unpack must use the size of the
 packed type

sizeof(double) overruns the buffers in single precision.
---
 src/pack2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack2d.h b/src/pack2d.h
index d296efc..433d0ef 100644
--- a/src/pack2d.h
+++ b/src/pack2d.h
@@ -322,7 +322,7 @@ static void pack_2d_memcpy(PACK_DATA *data, PACK_DATA *buf,
   nslow = plan->nslow;
   nstride = plan->nstride;
 
-  size = nfast*sizeof(double);
+  size = nfast*sizeof(PACK_DATA);
   for (slow = 0; slow < nslow; slow++) {
     in = &(buf[slow*nfast]);
     out = &(data[slow*nstride]);
@@ -346,7 +346,7 @@ static void unpack_2d_memcpy(PACK_DATA *buf, PACK_DATA *data,
   nslow = plan->nslow;
   nstride = plan->nstride;
 
-  size = nfast*sizeof(double);
+  size = nfast*sizeof(PACK_DATA);
   for (slow = 0; slow < nslow; slow++) {
     in = &(data[slow*nstride]);
     out = &(buf[slow*nfast]);
-- 
2.43.0


From 57a7619bc64b05634ca4a1d75c434b77429ea0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:33 +0000
Subject: [PATCH 08/16] fix: pass buffers by value in Fortran interface of
 setup_memory()

The C routine expects the addresses of the buffers; it received the
addresses of the c_ptr variables instead.
---
 src/fft2d_wrap.f90 | 2 +-
 src/fft3d_wrap.f90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d_wrap.f90 b/src/fft2d_wrap.f90
index afe43d9..b7a1494 100644
--- a/src/fft2d_wrap.f90
+++ b/src/fft2d_wrap.f90
@@ -99,7 +99,7 @@ interface
   subroutine fft2d_setup_memory(ptr,sendbuf,recvbuf) bind(c)
     use iso_c_binding
     type(c_ptr), value :: ptr
-    type(c_ptr) :: sendbuf,recvbuf
+    type(c_ptr), value :: sendbuf,recvbuf
   end subroutine fft2d_setup_memory
 
   subroutine fft2d_compute(ptr,in,out,flag) bind(c)
diff --git a/src/fft3d_wrap.f90 b/src/fft3d_wrap.f90
index f6ccc2a..f80082a 100644
--- a/src/fft3d_wrap.f90
+++ b/src/fft3d_wrap.f90
@@ -99,7 +99,7 @@ interface
   subroutine fft3d_setup_memory(ptr,sendbuf,recvbuf) bind(c)
     use iso_c_binding
     type(c_ptr), value :: ptr
-    type(c_ptr) :: sendbuf,recvbuf
+    type(c_ptr), value :: sendbuf,recvbuf
   end subroutine fft3d_setup_memory
 
   subroutine fft3d_compute(ptr,in,out,flag) bind(c)
-- 
2.43.0


From 1927957f27194b59e4e3dfbf6621ed68cc69883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:33 +0000
Subject: [PATCH 09/16] fix: all procs must choose the same settings when
 tuning

Each rank compared its own timings, so ranks could select different
collective/exchange/pack settings and then hang in the next setup() or
compute().  Use the time of rank 0 on all ranks, as is already done for
the initial trial.
---
 src/fft2d.cpp | 4 ++++
 src/fft3d.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index d6752e8..accbe15 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -1039,6 +1039,10 @@ void FFT2d::tune_trial(FFT_SCALAR *data, int nper, int flag, int tflag,
     }
 
   } else time1d = timeremap = timeremap1 = timeremap2 = timeremap3 = 0.0;
+
+  // insure all procs use exact same time to choose fastest settings
+
+  MPI_Bcast(&time2d,1,MPI_DOUBLE,0,world);
 }
 
 // -------------------------------------------------------------------
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 1a28e9e..6c8588d 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1100,6 +1100,10 @@ void FFT3d::tune_trial(FFT_SCALAR *data, int nper, int flag, int tflag,
 
   } else time1d = timeremap = 
            timeremap1 = timeremap2 = timeremap3 = timeremap4 = 0.0;
+
+  // insure all procs use exact same time to choose fastest settings
+
+  MPI_Bcast(&time3d,1,MPI_DOUBLE,0,world);
 }
 
 // -------------------------------------------------------------------
-- 
2.43.0


From 2aeacedcc4efee963596441f8df45fc13b3d8cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:33 +0000
Subject: [PATCH 10/16] fix: check output as well as input indices in FFT setup

The errors are about in/out indices but only the input tiles were
checked; a bad output tile led to wrong results or memory errors.
---
 src/fft2d.cpp |  9 +++++++++
 src/fft3d.cpp | 10 ++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index accbe15..a2136dd 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -263,6 +263,9 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   if (in_ilo > in_ihi+1 || in_jlo > in_jhi+1) flag = 1;
   if (in_ilo < 0 || in_jlo < 0) flag = 1;
   if (in_ihi >= nfast || in_jhi >= nslow) flag = 1;
+  if (out_ilo > out_ihi+1 || out_jlo > out_jhi+1) flag = 1;
+  if (out_ilo < 0 || out_jlo < 0) flag = 1;
+  if (out_ihi >= nfast || out_jhi >= nslow) flag = 1;
 
   MPI_Allreduce(&flag,&allflag,1,MPI_INT,MPI_MAX,world);
 
@@ -272,6 +275,12 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   bigint nall;
   MPI_Allreduce(&n,&nall,1,MPI_FFT_BIGINT,MPI_SUM,world);
 
+  if (nall != ((bigint) nfast * nslow))
+    error->all("FFT setup in/out indices do not tile grid");
+
+  n = (bigint) (out_ihi-out_ilo+1) * (out_jhi-out_jlo+1);
+  MPI_Allreduce(&n,&nall,1,MPI_FFT_BIGINT,MPI_SUM,world);
+
   if (nall != ((bigint) nfast * nslow))
     error->all("FFT setup in/out indices do not tile grid");
 
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 6c8588d..df67e21 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -260,6 +260,10 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   if (in_ilo > in_ihi+1 || in_jlo > in_jhi+1 || in_klo > in_khi+1) flag = 1;
   if (in_ilo < 0 || in_jlo < 0 || in_klo < 0) flag = 1;
   if (in_ihi >= nfast || in_jhi >= nmid || in_khi >= nslow) flag = 1;
+  if (out_ilo > out_ihi+1 || out_jlo > out_jhi+1 || out_klo > out_khi+1) 
+    flag = 1;
+  if (out_ilo < 0 || out_jlo < 0 || out_klo < 0) flag = 1;
+  if (out_ihi >= nfast || out_jhi >= nmid || out_khi >= nslow) flag = 1;
 
   MPI_Allreduce(&flag,&allflag,1,MPI_INT,MPI_MAX,world);
 
@@ -269,6 +273,12 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   bigint nall;
   MPI_Allreduce(&n,&nall,1,MPI_FFT_BIGINT,MPI_SUM,world);
 
+  if (nall != ((bigint) nfast * nmid*nslow))
+    error->all("FFT setup in/out indices do not tile grid");
+
+  n = (bigint) (out_ihi-out_ilo+1) * (out_jhi-out_jlo+1) * (out_khi-out_klo+1);
+  MPI_Allreduce(&n,&nall,1,MPI_FFT_BIGINT,MPI_SUM,world);
+
   if (nall != ((bigint) nfast * nmid*nslow))
     error->all("FFT setup in/out indices do not tile grid");
 
-- 
2.43.0


From 015a267ad4087dbec9a805a1f26202366b68bf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:33 +0000
Subject: [PATCH 11/16] fix: second setup() of a 2d FFT is an error, as for a
 3d FFT

It silently leaked the first plan.
---
 src/fft2d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index a2136dd..4a000eb 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -234,6 +234,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
 {
   int flag,allflag;
 
+  if (setupflag) error->all("FFT is already setup");
   setupflag = 1;
 
   // internal copies of input params
-- 
2.43.0


From 1357a77ef63284abf3abff919059edb880c5950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:33 +0000
Subject: [PATCH 12/16] fix: allow FFTs and remaps that were never set up to be
 deleted

The 2d FFT destructor dereferenced its missing 1d plans and the remap
destructors freed uninitialized pointers and communicators.
---
 src/fft2d.cpp   | 17 ++---------------
 src/remap2d.cpp |  6 ++++++
 src/remap3d.cpp |  6 ++++++
 3 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 4a000eb..c64417a 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -183,24 +183,11 @@ FFT2d::~FFT2d()
   delete [] primes;
   delete [] factors;
 
-  deallocate_remap(remap_prefast);
-  deallocate_remap(remap_fastslow);
-  deallocate_remap(remap_postslow);
-
-  deallocate_remap(remap_preslow);
-  deallocate_remap(remap_slowfast);
-  deallocate_remap(remap_postfast);
-
-  deallocate_ffts();
-  delete fft_fast;
-  delete fft_slow;
+  if (setupflag) deallocate_setup();
 
   // only deallocated send/recv bufs if allocated internally
 
-  if (memoryflag) {
-    memory->sfree(sendbuf);
-    memory->sfree(recvbuf);
-  }
+  if (memoryflag) deallocate_setup_memory();
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 92028f2..5499264 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -90,6 +90,12 @@ Remap2d::Remap2d(MPI_Comm user_comm)
   request = NULL;
   unpackplan = NULL;
 
+  pgroup = NULL;
+  newcomm = MPI_COMM_NULL;
+  sendcnts = senddispls = sendmap = NULL;
+  recvcnts = recvdispls = recvmap = NULL;
+
+  memoryflag = 0;
   memusage = 0;
   sendbuf = recvbuf = NULL;
 
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 948056e..f65c17c 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -90,6 +90,12 @@ Remap3d::Remap3d(MPI_Comm user_comm)
   request = NULL;
   unpackplan = NULL;
 
+  pgroup = NULL;
+  newcomm = MPI_COMM_NULL;
+  sendcnts = senddispls = sendmap = NULL;
+  recvcnts = recvdispls = recvmap = NULL;
+
+  memoryflag = 0;
   memusage = 0;
   sendbuf = recvbuf = NULL;
 
-- 
2.43.0


From a9ba86cc4cea80603d637c076bf47ddacada76c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:14 +0000
Subject: [PATCH 13/16] fix: changing memory or collective settings after
 setup() has no effect

As documented.  The destructors and remap() looked at the current value of
the public variable, which freed the caller's buffers, leaked internal
ones, or used the wrong kind of communication.
---
 src/fft2d.cpp   | 9 ++++++---
 src/fft2d.h     | 1 +
 src/fft3d.cpp   | 9 ++++++---
 src/fft3d.h     | 1 +
 src/remap2d.cpp | 8 +++++---
 src/remap2d.h   | 1 +
 src/remap3d.cpp | 8 +++++---
 src/remap3d.h   | 1 +
 8 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index c64417a..522a231 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -169,6 +169,7 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
 
   setupflag = 0;
   setup_memory_flag = 0;
+  memory_internal = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -187,7 +188,7 @@ FFT2d::~FFT2d()
 
   // only deallocated send/recv bufs if allocated internally
 
-  if (memoryflag) deallocate_setup_memory();
+  if (memory_internal) deallocate_setup_memory();
 }
 
 /* ----------------------------------------------------------------------
@@ -429,7 +430,8 @@ void FFT2d::setup(int user_nfast, int user_nslow,
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
-  if (memoryflag) {
+  memory_internal = memoryflag;
+  if (memory_internal) {
     setup_memory_flag = 1;
     if (sendsize) {
       sendbuf = (FFT_SCALAR *) memory->smalloc(sendsize*sizeof(FFT_SCALAR));
@@ -493,7 +495,8 @@ void FFT2d::deallocate_setup()
 void FFT2d::setup_memory(FFT_SCALAR *user_sendbuf, FFT_SCALAR *user_recvbuf)
 {
   if (!setupflag) error->all("Cannot setup FFT memory before setup");
-  if (memoryflag) error-> all("Cannot setup FFT memory with memoryflag set");
+  if (memory_internal) 
+    error->all("Cannot setup FFT memory with memoryflag set");
 
   setup_memory_flag = 1;
   sendbuf = user_sendbuf;
diff --git a/src/fft2d.h b/src/fft2d.h
index 411da1f..67cd257 100644
--- a/src/fft2d.h
+++ b/src/fft2d.h
@@ -63,6 +63,7 @@ class FFT2d {
   MPI_Comm world;
   int me,nprocs;
   int setupflag,setup_memory_flag;
+  int memory_internal;              // memoryflag setting used by setup()
 
   class Memory *memory;
   class Error *error;
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index df67e21..80fff77 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -175,6 +175,7 @@ FFT3d::FFT3d(MPI_Comm user_comm, int user_precision)
 
   setupflag = 0;
   setup_memory_flag = 0;
+  memory_internal = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -190,7 +191,7 @@ FFT3d::~FFT3d()
   delete [] factors;
 
   if (setupflag) deallocate_setup();
-  if (memoryflag) deallocate_setup_memory();
+  if (memory_internal) deallocate_setup_memory();
 }
 
 /* ----------------------------------------------------------------------
@@ -473,7 +474,8 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
-  if (memoryflag) {
+  memory_internal = memoryflag;
+  if (memory_internal) {
     setup_memory_flag = 1;
     if (sendsize) {
       sendbuf = (FFT_SCALAR *) memory->smalloc(sendsize*sizeof(FFT_SCALAR));
@@ -540,7 +542,8 @@ void FFT3d::deallocate_setup()
 void FFT3d::setup_memory(FFT_SCALAR *user_sendbuf, FFT_SCALAR *user_recvbuf)
 {
   if (!setupflag) error->all("Cannot setup FFT memory before setup");
-  if (memoryflag) error-> all("Cannot setup FFT memory with memoryflag set");
+  if (memory_internal) 
+    error->all("Cannot setup FFT memory with memoryflag set");
 
   setup_memory_flag = 1;
   sendbuf = user_sendbuf;
diff --git a/src/fft3d.h b/src/fft3d.h
index 17ba5ee..5a8d1b4 100644
--- a/src/fft3d.h
+++ b/src/fft3d.h
@@ -68,6 +68,7 @@ class FFT3d {
  private:
   int me,nprocs;
   int setupflag,setup_memory_flag;
+  int memory_internal;              // memoryflag setting used by setup()
 
   class Memory *memory;
   class Error *error;
diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 5499264..6c5942e 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -96,6 +96,7 @@ Remap2d::Remap2d(MPI_Comm user_comm)
   recvcnts = recvdispls = recvmap = NULL;
 
   memoryflag = 0;
+  collective_plan = 0;
   memusage = 0;
   sendbuf = recvbuf = NULL;
 
@@ -113,7 +114,7 @@ Remap2d::~Remap2d()
 
   // free new MPI communicator for collective comm
 
-  if (collective) {
+  if (collective_plan) {
     if (newcomm != MPI_COMM_NULL) MPI_Comm_free(&newcomm);
     memory->sfree(pgroup);
   }
@@ -135,7 +136,7 @@ Remap2d::~Remap2d()
 
   // free internal arrays for collective commm
     
-  if (collective) {
+  if (collective_plan) {
     memory->sfree(sendcnts);
     memory->sfree(recvcnts);
     memory->sfree(senddispls);
@@ -186,6 +187,7 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
 
   permute = user_permute;
   memoryflag = user_memoryflag;
+  collective_plan = collective;
 
   // store parameters in local data structs
 
@@ -599,7 +601,7 @@ void Remap2d::remap(FFT_SCALAR *in, FFT_SCALAR *out,
 
   // point-to-point remap communication
 
-  if (!collective) {
+  if (!collective_plan) {
 
     // post all recvs into scratch space
 
diff --git a/src/remap2d.h b/src/remap2d.h
index 52a3c57..059df86 100644
--- a/src/remap2d.h
+++ b/src/remap2d.h
@@ -46,6 +46,7 @@ class Remap2d {
 
   int permute;                      // permutation setting = 0,1
   int memoryflag;                   // 0 = user-provided bufs, 1 = internal
+  int collective_plan;              // collective setting used by setup()
 
   // point to point communication
 
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index f65c17c..37ce9c1 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -96,6 +96,7 @@ Remap3d::Remap3d(MPI_Comm user_comm)
   recvcnts = recvdispls = recvmap = NULL;
 
   memoryflag = 0;
+  collective_plan = 0;
   memusage = 0;
   sendbuf = recvbuf = NULL;
 
@@ -113,7 +114,7 @@ Remap3d::~Remap3d()
 
   // free new MPI communicator for collective comm
 
-  if (collective) {
+  if (collective_plan) {
     if (newcomm != MPI_COMM_NULL) MPI_Comm_free(&newcomm);
     memory->sfree(pgroup);
   }
@@ -135,7 +136,7 @@ Remap3d::~Remap3d()
 
   // free internal arrays for collective commm
     
-  if (collective) {
+  if (collective_plan) {
     memory->sfree(sendcnts);
     memory->sfree(recvcnts);
     memory->sfree(senddispls);
@@ -191,6 +192,7 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
 
   permute = user_permute;
   memoryflag = user_memoryflag;
+  collective_plan = collective;
 
   // store parameters in local data structs
 
@@ -646,7 +648,7 @@ void Remap3d::remap(FFT_SCALAR *in, FFT_SCALAR *out,
 
   // point-to-point remap communication
 
-  if (!collective) {
+  if (!collective_plan) {
 
     // post all recvs into scratch space
 
diff --git a/src/remap3d.h b/src/remap3d.h
index afc58d8..6f73658 100644
--- a/src/remap3d.h
+++ b/src/remap3d.h
@@ -47,6 +47,7 @@ class Remap3d {
 
   int permute;                      // permutation setting = 0,1,2
   int memoryflag;                   // 0 = user-provided bufs, 1 = internal
+  int collective_plan;              // collective setting used by setup()
 
   // point to point communication
 
-- 
2.43.0


From e3c1d21988153eb87480f3b4d285d05c71d27d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:39 +0000
Subject: [PATCH 14/16] fix: tuning with a time limit must not exceed the
 requested number of FFTs per trial

---
 src/fft2d.cpp | 2 ++
 src/fft3d.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 522a231..92c137f 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -758,12 +758,14 @@ void FFT2d::tune(int user_nfast, int user_nslow,
   if (tflag) timetotal = nruns * (timesetup + 3*niter*timefft);
   else timetotal = nruns * (timesetup + niter*timefft);
 
+  int niter_user = niter;
   if (tmax > 0.0 && timetotal > tmax) {
     if (tflag) niter = static_cast<int> ((tmax/nruns-timesetup) / timefft/3);
     else niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
     if (niter <= 0) {
       tflag = 0;
       niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
+      if (niter > niter_user) niter = niter_user;
       if (niter <= 0) {
         niter = 1;
         nruns = static_cast<int> (tmax/(timesetup+timefft));
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 80fff77..debcdd0 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -820,12 +820,14 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
   if (tflag) timetotal = nruns * (timesetup + 3*niter*timefft);
   else timetotal = nruns * (timesetup + niter*timefft);
 
+  int niter_user = niter;
   if (tmax > 0.0 && timetotal > tmax) {
     if (tflag) niter = static_cast<int> ((tmax/nruns-timesetup) / timefft/3);
     else niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
     if (niter <= 0) {
       tflag = 0;
       niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
+      if (niter > niter_user) niter = niter_user;
       if (niter <= 0) {
         niter = 1;
         nruns = static_cast<int> (tmax/(timesetup+timefft));
-- 
2.43.0


From 2e49fb279179e47c30520e38ca3da5213aa445de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:03 +0000
Subject: [PATCH 15/16] fix: return the best settings and time found by tuning
 through the C interface

---
 src/fft2d_wrap.cpp | 4 ++++
 src/fft3d_wrap.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fft2d_wrap.cpp b/src/fft2d_wrap.cpp
index 4cf3f8c..e3db922 100644
--- a/src/fft2d_wrap.cpp
+++ b/src/fft2d_wrap.cpp
@@ -91,6 +91,9 @@ int fft2d_get_int(void *ptr, const char *keyword)
   else if (strcmp(keyword,"npbrick2") == 0) return fft->npbrick2;
   else if (strcmp(keyword,"ntrial") == 0) return fft->ntrial;
   else if (strcmp(keyword,"npertrial") == 0) return fft->npertrial;
+  else if (strcmp(keyword,"cbest") == 0) return fft->cbest;
+  else if (strcmp(keyword,"ebest") == 0) return fft->ebest;
+  else if (strcmp(keyword,"pbest") == 0) return fft->pbest;
 
   return -1;
 }
@@ -104,6 +107,7 @@ double fft2d_get_double(void *ptr, const char *keyword)
   FFT2d *fft = (FFT2d *) ptr;
 
   if (strcmp(keyword,"setuptime") == 0) return fft->setuptime;
+  else if (strcmp(keyword,"besttime") == 0) return fft->besttime;
 
   return -1.0;
 }
diff --git a/src/fft3d_wrap.cpp b/src/fft3d_wrap.cpp
index 9bc1411..33449de 100644
--- a/src/fft3d_wrap.cpp
+++ b/src/fft3d_wrap.cpp
@@ -98,6 +98,9 @@ int fft3d_get_int(void *ptr, const char *keyword)
   else if (strcmp(keyword,"npbrick3") == 0) return fft->npbrick3;
   else if (strcmp(keyword,"ntrial") == 0) return fft->ntrial;
   else if (strcmp(keyword,"npertrial") == 0) return fft->npertrial;
+  else if (strcmp(keyword,"cbest") == 0) return fft->cbest;
+  else if (strcmp(keyword,"ebest") == 0) return fft->ebest;
+  else if (strcmp(keyword,"pbest") == 0) return fft->pbest;
 
   return -1;
 }
@@ -111,6 +114,7 @@ double fft3d_get_double(void *ptr, const char *keyword)
   FFT3d *fft = (FFT3d *) ptr;
 
   if (strcmp(keyword,"setuptime") == 0) return fft->setuptime;
+  else if (strcmp(keyword,"besttime") == 0) return fft->besttime;
 
   return -1.0;
 }
-- 
2.43.0


From 85884cd91061d23555ae36aaa01e92beb5005c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:06 +0000
Subject: [PATCH 16/16] fix: initialise the tuning results of a 2d FFT as the
 3d FFT does

---
 src/fft2d.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 92c137f..e7ad826 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -130,6 +130,12 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
   scaled = 1;
   remaponly = 0;
 
+  // tuning results
+
+  ntrial = npertrial = 0;
+  cbest = ebest = pbest = -1;
+  besttime = 0.0;
+
   // Memory and Error classes
 
   memory = new Memory();
-- 
2.43.0

