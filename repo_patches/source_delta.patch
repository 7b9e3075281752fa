From da74d09e5089caee1ef713aaac6f5ffc4560366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:35 +0000
Subject: [PATCH 01/17] fix: Filter wrote past its output history when given a
 single IIR coefficient pair

---
 dsp/signalconditioning/Filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/signalconditioning/Filter.cpp b/dsp/signalconditioning/Filter.cpp
index b737860..278d9ca 100644
--- a/dsp/signalconditioning/Filter.cpp
+++ b/dsp/signalconditioning/Filter.cpp
@@ -50,7 +50,8 @@ Filter::Filter(Parameters params)
     m_offb = m_offmax;
 
     if (!m_fir) {
-        m_bufa.resize(m_order + m_offmax);
+        // room for at least one value even at order zero
+        m_bufa.resize(m_sz + m_offmax);
     }
 
     m_bufb.resize(m_sz + m_offmax);
-- 
2.43.0


From de2aca9507d74ae11cf634aca79fe91f4b671644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:35 +0000
Subject: [PATCH 02/17] fix: FiltFilt output depended on the block processed
 before

---
 dsp/signalconditioning/FiltFilt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/signalconditioning/FiltFilt.cpp b/dsp/signalconditioning/FiltFilt.cpp
index 3f011ca..6184008 100644
--- a/dsp/signalconditioning/FiltFilt.cpp
+++ b/dsp/signalconditioning/FiltFilt.cpp
@@ -70,7 +70,8 @@ void FiltFilt::process(const double *const QM_R__ src,
     }
     
     ////////////////////////////////
-    // Do 0Ph filtering
+    // Do 0Ph filtering, starting without state from earlier calls
+    m_filter.reset();
     m_filter.process(filtScratchIn, filtScratchOut, nExt);
         
     // reverse the series for FILTFILT 
-- 
2.43.0


From d9a940733ef73a0de3f18172e82c379f13c76c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:35 +0000
Subject: [PATCH 03/17] fix: a Kaiser window of length 1 had the value NaN

---
 base/KaiserWindow.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/KaiserWindow.cpp b/base/KaiserWindow.cpp
index 306b6aa..c014057 100644
--- a/base/KaiserWindow.cpp
+++ b/base/KaiserWindow.cpp
@@ -53,6 +53,11 @@ static double bessel0(double x)
 void
 KaiserWindow::init()
 {
+    if (m_length == 1) {
+        m_window.push_back(1.0);
+        return;
+    }
+
     double denominator = bessel0(m_beta);
     bool even = (m_length % 2 == 0);
     for (int i = 0; i < (even ? m_length/2 : (m_length+1)/2); ++i) {
-- 
2.43.0


From 987f78c3e0e6edb359ab6729e696701e8dcaca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 04/17] fix: Framer::getFrame past the end of the source wrote
 before the frame buffer

---
 dsp/signalconditioning/Framer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsp/signalconditioning/Framer.cpp b/dsp/signalconditioning/Framer.cpp
index 5281046..da11be6 100644
--- a/dsp/signalconditioning/Framer.cpp
+++ b/dsp/signalconditioning/Framer.cpp
@@ -61,7 +61,10 @@ void Framer::getFrame(double *dst)
 
     } else { // m_srcIndex is within m_frameLength of m_sampleLen
 
-        int rem = int(m_sampleLen - m_srcIndex);
+        int rem = 0; // nothing left once we are past the end of the source
+        if (m_srcIndex < m_sampleLen) {
+            rem = int(m_sampleLen - m_srcIndex);
+        }
         int zero = m_frameLength - rem;
 
         for (int i = 0; i < rem; i++) {
-- 
2.43.0


From 7c54e3c6e91ef46a9a29d17db83a6184fde7c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 05/17] fix: initialise TCSGram frame duration

---
 dsp/tonal/TCSgram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/tonal/TCSgram.cpp b/dsp/tonal/TCSgram.cpp
index 4806096..c0e7af2 100644
--- a/dsp/tonal/TCSgram.cpp
+++ b/dsp/tonal/TCSgram.cpp
@@ -23,7 +23,8 @@
 #include "maths/MathUtilities.h"
 
 TCSGram::TCSGram() :
-    m_uNumBins(6)
+    m_uNumBins(6),
+    m_dFrameDurationMS(0)
 {
 }
 
-- 
2.43.0


From 53f7b4ce95991060f326d6c2a68fdbc71107cc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:05 +0000
Subject: [PATCH 06/17] fix: PCA projected onto components in arbitrary rather
 than variance order

---
 maths/pca/pca.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/maths/pca/pca.c b/maths/pca/pca.c
index fa8d1de..a8d4830 100644
--- a/maths/pca/pca.c
+++ b/maths/pca/pca.c
@@ -248,6 +248,28 @@ void tqli(double* d, double* e, int n, double** z)
     }
 }
 
+/* Sort eigenvalues into ascending order, with their eigenvectors (columns of z) */
+static void eigsort(double* d, int n, double** z)
+{
+    int i, j, k;
+    double t;
+
+    for (i = 0; i < n-1; i++)
+    {
+        k = i;
+        for (j = i+1; j < n; j++)
+            if (d[j] < d[k]) k = j;
+        if (k != i)
+        {
+            t = d[i]; d[i] = d[k]; d[k] = t;
+            for (j = 0; j < n; j++)
+            {
+                t = z[j][i]; z[j][i] = z[j][k]; z[j][k] = t;
+            }
+        }
+    }
+}
+
 /* In place projection onto basis vectors */
 void pca_project(double** data, int n, int m, int ncomponents)
 {
@@ -277,6 +299,7 @@ void pca_project(double** data, int n, int m, int ncomponents)
     //}
     tred2(symmat, m, evals, interm);  /* Triangular decomposition */
     tqli(evals, interm, m, symmat);   /* Reduction of sym. trid. matrix */
+    eigsort(evals, m, symmat);        /* tqli leaves them in no particular order */
 /* evals now contains the eigenvalues,
    columns of symmat now contain the associated eigenvectors. */   
 
-- 
2.43.0


From cc957691e2a297af02d6570c8524cff3be2b8eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:16 +0000
Subject: [PATCH 07/17] fix: calculateBeats read before its scores when the
 input is shorter than a beat period

---
 dsp/tempotracking/TempoTrackV2.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsp/tempotracking/TempoTrackV2.cpp b/dsp/tempotracking/TempoTrackV2.cpp
index 72812b2..072351a 100644
--- a/dsp/tempotracking/TempoTrackV2.cpp
+++ b/dsp/tempotracking/TempoTrackV2.cpp
@@ -465,12 +465,13 @@ TempoTrackV2::calculateBeats(const vector<double> &df,
 
     // STARTING POINT, I.E. LAST BEAT.. PICK A STRONG POINT IN cumscore VECTOR
     d_vec_t tmp_vec;
-    for (int i = df_len - beat_period[beat_period.size()-1] ; i < df_len; i++) {
+    int tail = df_len - beat_period[beat_period.size()-1];
+    if (tail < 0) tail = 0; // input shorter than one beat period
+    for (int i = tail ; i < df_len; i++) {
         tmp_vec.push_back(cumscore[i]);
     }
 
-    int startpoint = get_max_ind(tmp_vec) +
-        df_len - beat_period[beat_period.size()-1] ;
+    int startpoint = get_max_ind(tmp_vec) + tail;
 
     // can happen if no results obtained earlier (e.g. input too short)
     if (startpoint >= int(backlink.size())) {
-- 
2.43.0


From 6e944382ecd903cdb5be574aec8a93d33f1648fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 08/17] fix: BlockAllocator freed storage still in use on
 growing past 1024 blocks

---
 thread/BlockAllocator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/thread/BlockAllocator.h b/thread/BlockAllocator.h
index 6b4c9f5..e8bf4dc 100644
--- a/thread/BlockAllocator.h
+++ b/thread/BlockAllocator.h
@@ -35,6 +35,8 @@ THE SOFTWARE.
 #define QM_DSP_BLOCK_ALLOCATOR_H
 
 #include <cstdlib>
+#include <deque>
+#include <vector>
 
 /**
  * BlockAllocator is a simple allocator for fixed-size (usually small)
@@ -174,11 +176,9 @@ private:
 
     struct Blocks
     {
-        std::vector<Block> data;
-
-        Blocks() {
-            data.reserve(1024);
-        }
+        // a deque, so that adding a block never copies the existing
+        // ones (each of which owns its storage)
+        std::deque<Block> data;
     };
 
     const int m_sz;
-- 
2.43.0


From 1679699a1dcabbdd534bc19d42c7b77e26319f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:12 +0000
Subject: [PATCH 09/17] fix: awaitTask returned before the task was done on a
 spurious wake-up

---
 thread/AsynchronousTask.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread/AsynchronousTask.h b/thread/AsynchronousTask.h
index e34bec0..7889209 100644
--- a/thread/AsynchronousTask.h
+++ b/thread/AsynchronousTask.h
@@ -70,7 +70,7 @@ protected:
         m_todo.unlock();
     }
     void awaitTask() {
-        m_done.wait();
+        while (m_inTask) m_done.wait();
         m_done.unlock();
     }
 
-- 
2.43.0


From 5d847f3fb41fc49c5e528ecd1946095d064c3f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:12 +0000
Subject: [PATCH 10/17] fix: timed Condition::wait gave an invalid deadline on
 a whole second

---
 thread/Thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread/Thread.cpp b/thread/Thread.cpp
index 54820a0..8ad201a 100644
--- a/thread/Thread.cpp
+++ b/thread/Thread.cpp
@@ -510,7 +510,7 @@ Condition::wait(int us)
         gettimeofday(&now, 0);
 
         now.tv_usec += us;
-        while (now.tv_usec > 1000000) {
+        while (now.tv_usec >= 1000000) {
             now.tv_usec -= 1000000;
             ++now.tv_sec;
         }
-- 
2.43.0


From acd213e9a1562554185a40abecf1f3b497d02f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:59 +0000
Subject: [PATCH 11/17] fix: DFProcess median filter read outside, or left
 unset, parts of inputs shorter than its window

---
 dsp/signalconditioning/DFProcess.cpp | 50 ++++------------------------
 1 file changed, 7 insertions(+), 43 deletions(-)

diff --git a/dsp/signalconditioning/DFProcess.cpp b/dsp/signalconditioning/DFProcess.cpp
index 996eb1e..a0f18aa 100644
--- a/dsp/signalconditioning/DFProcess.cpp
+++ b/dsp/signalconditioning/DFProcess.cpp
@@ -96,8 +96,7 @@ void DFProcess::process(double *src, double* dst)
 
 void DFProcess::medianFilter(double *src, double *dst)
 {
-    int i,k,j,l;
-    int index = 0;
+    int i,j,l;
 
     double val = 0;
 
@@ -106,53 +105,18 @@ void DFProcess::medianFilter(double *src, double *dst)
 
     double* scratch = new double[ m_length ];
 
-    for( i = 0; i < m_winPre; i++) {
-        
-        if (index >= m_length) {
-            break;
-        }
-
-        k = i + m_winPost + 1;
-
-        for( j = 0; j < k; j++) {
-            y[ j ] = src[ j ];
-        }
-        scratch[ index ] = MathUtilities::median( y, k );
-        index++;
-    }
+    // median over m_winPre values before and m_winPost after each
+    // one, as far as they exist
+    for( i = 0; i < m_length; i++) {
 
-    for(  i = 0; i + m_winPost + m_winPre < m_length; i ++) {
-        
-        if (index >= m_length) {
-            break;
-        }
-                         
         l = 0;
-        for(  j  = i; j < ( i + m_winPost + m_winPre + 1); j++) {
+        for( j = std::max( i - m_winPre, 0 );
+             j < std::min( i + m_winPost + 1, m_length ); j++) {
             y[ l ] = src[ j ];
             l++;
         }
 
-        scratch[index] = MathUtilities::median( y, (m_winPost + m_winPre + 1 ));
-        index++;
-    }
-
-    for( i = std::max( m_length - m_winPost, 1); i < m_length; i++) {
-        
-        if (index >= m_length) {
-            break;
-        }
-
-        k = std::max( i - m_winPre, 1);
-
-        l = 0;
-        for( j = k; j < m_length; j++) {
-            y[ l ] = src[ j ];
-            l++;
-        }
-                
-        scratch[index] = MathUtilities::median( y, l);
-        index++;
+        scratch[ i ] = MathUtilities::median( y, l );
     }
 
     for( i = 0; i < m_length; i++ ) {
-- 
2.43.0


From 15374ead5d9834ddd9768d2c712502e8a343c6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:04 +0000
Subject: [PATCH 12/17] fix: ConstantQ::process of interleaved data wrote past
 its output buffer

---
 dsp/chromagram/ConstantQ.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index d268756..63ffe0f 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -168,7 +168,6 @@ double* ConstantQ::process( const double* fftdata )
 
     for (int row=0; row < 2 * m_uK; row++) {
         m_CQdata[ row ] = 0;
-        m_CQdata[ row+1 ] = 0;
     }
     const int *fftbin = &(sk->is[0]);
     const int *cqbin = &(sk->js[0]);
-- 
2.43.0


From 94b0f9df21b283fbd6586138b4348c08267ba6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:20 +0000
Subject: [PATCH 13/17] fix: ConstantQ::process of interleaved data read the
 spectrum one bin off

---
 dsp/chromagram/ConstantQ.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index 63ffe0f..d73af1a 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -181,8 +181,8 @@ double* ConstantQ::process( const double* fftdata )
         if (col == 0) continue;
         const double & r1 = real[i];
         const double & i1 = imag[i];
-        const double & r2 = fftdata[ (2*m_FFTLength) - 2*col - 2 ];
-        const double & i2 = fftdata[ (2*m_FFTLength) - 2*col - 2 + 1 ];
+        const double & r2 = fftdata[ (2*m_FFTLength) - 2*col ];
+        const double & i2 = fftdata[ (2*m_FFTLength) - 2*col + 1 ];
         // add the multiplication
         m_CQdata[ 2*row  ] += (r1*r2 - i1*i2);
         m_CQdata[ 2*row+1] += (r1*i2 + i1*r2);
-- 
2.43.0


From e31f94bc90cef7a0b4d88e17854542c85f3c4dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:52 +0000
Subject: [PATCH 14/17] fix: constq_segment overran its feature vectors when
 there are fewer than 20 constant-Q coefficients

---
 dsp/segmentation/cluster_segmenter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsp/segmentation/cluster_segmenter.c b/dsp/segmentation/cluster_segmenter.c
index 1b3e591..ae9123f 100644
--- a/dsp/segmentation/cluster_segmenter.c
+++ b/dsp/segmentation/cluster_segmenter.c
@@ -214,6 +214,9 @@ void constq_segment(int* q, double** features, int frames_read, int bins, int nc
 
         /* do PCA on the features (but not the envelope) */
         int ncomponents = 20;
+        if (ncomponents > ncoeff) {
+            ncomponents = ncoeff;
+        }
         pca_project(features, frames_read, ncoeff, ncomponents);
                 
         /* copy the envelope so that it immediatly follows the chosen components */
-- 
2.43.0


From 1a4da2ebb269866644b29e97e849c6661b5efa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:48 +0000
Subject: [PATCH 15/17] fix: TempoTrack read past its autocorrelation when the
 beat period is at the end of the lag range

---
 dsp/tempotracking/TempoTrack.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index ac0aadb..53f6970 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -67,7 +67,12 @@ void TempoTrack::initialise( TTParams Params )
 
     m_rawDFFrame = new double[ m_winLength ];
     m_smoothDFFrame = new double[ m_winLength ];
-    m_frameACF = new double[ m_winLength ];
+    // the period finding looks at up to four times the lag length (plus
+    // a margin), whether or not the analysis window goes that far
+    int acfLength = 4 * m_lagLength + 3;
+    if (acfLength < m_winLength) acfLength = m_winLength;
+    m_frameACF = new double[ acfLength ];
+    for (int i = 0; i < acfLength; i++) m_frameACF[ i ] = 0.0;
     m_tempoScratch = new double[ m_lagLength ];
     m_smoothRCF = new double[ m_lagLength ];
 
-- 
2.43.0


From f77d4167d7df9378a8bd3412881b1de18ae5ff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:48 +0000
Subject: [PATCH 16/17] fix: TempoTrack::findMeter leaked a buffer on every
 call

---
 dsp/tempotracking/TempoTrack.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index 53f6970..e832e7d 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -441,14 +441,10 @@ int TempoTrack::findMeter(double *ACF, int len, double period)
     double temp4A = 0.0;
     double temp4B = 0.0;
 
-    double* dbf = new double[ len ]; int t = 0;
-    for( int u = 0; u < len; u++ ){ dbf[ u ] = 0.0; }
-
     if( (double)len < 6 * p + 2 ) {
         
         for( i = ( 3 * p - 2 ); i < ( 3 * p + 2 ) + 1; i++ ) {
             temp3A += ACF[ i ];
-            dbf[ t++ ] = ACF[ i ];
         }
         
         for( i = ( 4 * p - 2 ); i < ( 4 * p + 2 ) + 1; i++ ) {
-- 
2.43.0


From 52e3291ca60f5afd916d97b72821631802381de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:52 +0000
Subject: [PATCH 17/17] fix: TempoTrack::process carried on after the end of
 the previous input when called again

---
 dsp/tempotracking/TempoTrack.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index e832e7d..e5aab07 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -652,6 +652,7 @@ vector<int> TempoTrack::process( vector <double> DF,
     for(int clear = 0; clear < m_lagLength; clear++){ PW[ clear ] = 0.0;}
 
     m_DFFramer.setSource( &causalDF[0], m_dataLength );
+    m_DFFramer.resetCounters();
 
     int TTFrames = m_DFFramer.getMaxNoFrames();
 
-- 
2.43.0

