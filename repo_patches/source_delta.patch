From eb5a75af6ec4bab59b29e981d64854c47c785227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:21 +0000
Subject: [PATCH 001/202] fix: refuse DR spectrometer polarization formats the
 reader cannot unpack

The unpackers for the formats that are not listed read past the end of the data
buffer, and the failure path released the header buffer twice.
---
 lsl/reader/drspec.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/lsl/reader/drspec.cpp b/lsl/reader/drspec.cpp
index 6aa65d7..5584227 100644
--- a/lsl/reader/drspec.cpp
+++ b/lsl/reader/drspec.cpp
@@ -243,7 +243,7 @@ static void parse_stokes_full(DRSpecHeader *header, float *data, float *I0, floa
 
 
 PyObject *read_drspec(PyObject *self, PyObject *args) {
-    PyObject *ph, *buffer, *output, *frame, *fHeader, *fPayload, *temp;
+    PyObject *ph, *buffer=NULL, *output, *frame, *fHeader, *fPayload, *temp;
     PyObject *tuningWords, *fills, *errors, *saturations;
     PyArrayObject *dataA0=NULL, *dataB0=NULL, *dataC0=NULL, *dataD0=NULL;
     PyArrayObject *dataA1=NULL, *dataB1=NULL, *dataC1=NULL, *dataD1=NULL;
@@ -274,7 +274,7 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
         goto fail;
     }
     memcpy(&header, PyBytes_AS_STRING(buffer), sizeof(header));
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     // Check the header's magic numbers
     if( header.MAGIC1 != 0xC0DEC0DE || header.MAGIC2 != 0xED0CED0C) {
@@ -284,6 +284,25 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
     }
     
     // Get the data format
+    switch(header.stokes_format) {
+        case LINEAR_XX:
+        case LINEAR_XY_RE:
+        case LINEAR_XY_IM:
+        case LINEAR_YY:
+        case LINEAR_XX | LINEAR_YY:
+        case LINEAR_XY_RE | LINEAR_XY_IM:
+        case LINEAR_XX | LINEAR_XY_RE | LINEAR_XY_IM | LINEAR_YY:
+        case STOKES_I:
+        case STOKES_Q:
+        case STOKES_U:
+        case STOKES_V:
+        case STOKES_I | STOKES_V:
+        case STOKES_I | STOKES_Q | STOKES_U | STOKES_V:
+            break;
+        default:
+            PyErr_Format(PyExc_RuntimeError, "Cannot parse data with a polarization format of 0x%02X", header.stokes_format);
+            goto fail;
+    }
     nSets = pol_count(header.stokes_format)*2;
     
     // Create the output data arrays
@@ -369,7 +388,7 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
         goto fail;
     }
     memcpy(data, PyBytes_AS_STRING(buffer), nBytes);
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     Py_BEGIN_ALLOW_THREADS
     
-- 
2.43.0


From 64e351cda569fdf4ac2e057b56c4e5f42e5021b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:21 +0000
Subject: [PATCH 002/202] fix: do not overflow the DR spectrometer
 normalization for long integrations

The product of the transform length and the fill count was formed in 32 bits.
---
 lsl/reader/drspec.cpp | 48 +++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/lsl/reader/drspec.cpp b/lsl/reader/drspec.cpp
index 5584227..18640a3 100644
--- a/lsl/reader/drspec.cpp
+++ b/lsl/reader/drspec.cpp
@@ -77,16 +77,16 @@ static void parse_linear_single(DRSpecHeader *header, float *data, float *S0, fl
     // Spectra normalization factors
     if( P == LINEAR_XX ) {
         // XX*
-        norm0 = header->nFreqs * header->fills[0];
-        norm1 = header->nFreqs * header->fills[2];
+        norm0 = (float) header->nFreqs * header->fills[0];
+        norm1 = (float) header->nFreqs * header->fills[2];
     } else if( P == LINEAR_YY ) {
         // YY*
-        norm0 = header->nFreqs * header->fills[1];
-        norm1 = header->nFreqs * header->fills[3];
+        norm0 = (float) header->nFreqs * header->fills[1];
+        norm1 = (float) header->nFreqs * header->fills[3];
     } else {
         // real(XY*) or imag(XY*)
-        norm0 = header->nFreqs * min(header->fills[0], header->fills[1]);
-        norm1 = header->nFreqs * min(header->fills[2], header->fills[3]);
+        norm0 = (float) header->nFreqs * min(header->fills[0], header->fills[1]);
+        norm1 = (float) header->nFreqs * min(header->fills[2], header->fills[3]);
     }
     
     // Sort out the data
@@ -103,10 +103,10 @@ static void parse_linear_half(DRSpecHeader *header, float *data, float *XX0, flo
     float normXX0, normXX1, normYY0, normYY1;
     
     // Spectra normalization factors
-    normXX0 = header->nFreqs * header->fills[0];
-    normXX1 = header->nFreqs * header->fills[2];
-    normYY0 = header->nFreqs * header->fills[1];
-    normYY1 = header->nFreqs * header->fills[3];
+    normXX0 = (float) header->nFreqs * header->fills[0];
+    normXX1 = (float) header->nFreqs * header->fills[2];
+    normYY0 = (float) header->nFreqs * header->fills[1];
+    normYY1 = (float) header->nFreqs * header->fills[3];
     
     // Sort out the data
     for(i=0; i<header->nFreqs; i++) {
@@ -126,8 +126,8 @@ static void parse_linear_other_half(DRSpecHeader *header, float *data, float *CR
     float normCH0, normCH1;
     
     // Spectra normalization factors
-    normCH0 = header->nFreqs * min(header->fills[0], header->fills[1]);
-    normCH1 = header->nFreqs * min(header->fills[2], header->fills[3]);
+    normCH0 = (float) header->nFreqs * min(header->fills[0], header->fills[1]);
+    normCH1 = (float) header->nFreqs * min(header->fills[2], header->fills[3]);
     
     // Sort out the data
     for(i=0; i<header->nFreqs; i++) {
@@ -147,12 +147,12 @@ static void parse_linear_full(DRSpecHeader *header, float *data, float *XX0, flo
     float normXX0, normXX1, normCH0, normCH1, normYY0, normYY1;
     
     // Spectra normalization factors
-    normXX0 = header->nFreqs * header->fills[0];
-    normXX1 = header->nFreqs * header->fills[2];
-    normCH0 = header->nFreqs * min(header->fills[0], header->fills[1]);
-    normCH1 = header->nFreqs * min(header->fills[2], header->fills[3]);
-    normYY0 = header->nFreqs * header->fills[1];
-    normYY1 = header->nFreqs * header->fills[3];
+    normXX0 = (float) header->nFreqs * header->fills[0];
+    normXX1 = (float) header->nFreqs * header->fills[2];
+    normCH0 = (float) header->nFreqs * min(header->fills[0], header->fills[1]);
+    normCH1 = (float) header->nFreqs * min(header->fills[2], header->fills[3]);
+    normYY0 = (float) header->nFreqs * header->fills[1];
+    normYY1 = (float) header->nFreqs * header->fills[3];
 
     // Sort out the data
     for(i=0; i<header->nFreqs; i++) {
@@ -180,8 +180,8 @@ static void parse_stokes_single(DRSpecHeader *header, float *data, float *S0, fl
     float norm0, norm1;
     
     // Spectra normalization factors
-    norm0 = header->nFreqs * min(header->fills[0], header->fills[1]);
-    norm1 = header->nFreqs * min(header->fills[2], header->fills[3]);
+    norm0 = (float) header->nFreqs * min(header->fills[0], header->fills[1]);
+    norm1 = (float) header->nFreqs * min(header->fills[2], header->fills[3]);
     
     // Sort out the data
     for(i=0; i<header->nFreqs; i++) {
@@ -197,8 +197,8 @@ static void parse_stokes_half(DRSpecHeader *header, float *data, float *I0, floa
     float norm0, norm1;
     
     // Spectra normalization factors
-    norm0 = header->nFreqs * min(header->fills[0], header->fills[1]);
-    norm1 = header->nFreqs * min(header->fills[2], header->fills[3]);
+    norm0 = (float) header->nFreqs * min(header->fills[0], header->fills[1]);
+    norm1 = (float) header->nFreqs * min(header->fills[2], header->fills[3]);
     
     // Sort out the data
     for(i=0; i<header->nFreqs; i++) {
@@ -218,8 +218,8 @@ static void parse_stokes_full(DRSpecHeader *header, float *data, float *I0, floa
     float norm0, norm1;
     
     // Spectra normalization factors
-    norm0 = header->nFreqs * min(header->fills[0], header->fills[1]);
-    norm1 = header->nFreqs * min(header->fills[2], header->fills[3]);
+    norm0 = (float) header->nFreqs * min(header->fills[0], header->fills[1]);
+    norm1 = (float) header->nFreqs * min(header->fills[2], header->fills[3]);
     
     // Sort out the data
     for(i=0; i<header->nFreqs; i++) {
-- 
2.43.0


From efa6883530954dde842b7356addbeec8731f2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:21 +0000
Subject: [PATCH 003/202] fix: do not release the VDIF read buffer twice when a
 frame is refused

---
 lsl/reader/vdif.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lsl/reader/vdif.cpp b/lsl/reader/vdif.cpp
index a69caa9..43a07a4 100644
--- a/lsl/reader/vdif.cpp
+++ b/lsl/reader/vdif.cpp
@@ -177,7 +177,7 @@ static PyArrayObject * parse_vdif(uint8_t *rawData, uint32_t dataLength, uint32_
 
 template<typename T, NPY_TYPES N>
 PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
-    PyObject *ph, *buffer, *output, *frame, *fHeader, *fPayload, *temp;
+    PyObject *ph, *buffer=NULL, *output, *frame, *fHeader, *fPayload, *temp;
     PyArrayObject *data=NULL;
     uint32_t i;
     float cFreq, sRate;
@@ -210,7 +210,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         goto fail;
     }
     memcpy(&bHeader, PyBytes_AS_STRING(buffer), sizeof(bHeader));
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     // Fix up various bits in the basic header
     uint32_t nChan;
@@ -249,7 +249,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
             goto fail;
         }
         memcpy(&eHeader, PyBytes_AS_STRING(buffer), sizeof(eHeader));
-        Py_XDECREF(buffer);
+        Py_CLEAR(buffer);
         
     } else {
         // Legacy headers are missing this information
@@ -290,7 +290,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         goto fail;
     }
     memcpy(rawData, PyBytes_AS_STRING(buffer), sizeof(uint8_t)*dataLength);
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     // Parse it out
     if( bitsPerSample == 8 ) {
@@ -356,7 +356,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         padims.len = 2;
         
         tempArrayMulti = (PyArrayObject*) PyArray_Newshape(data, &padims, NPY_CORDER);
-        Py_XDECREF(data);
+        Py_CLEAR(data);
         if( tempArrayMulti == NULL ) {
             PyErr_Format(PyExc_MemoryError, "Cannot create output array");
             goto fail;
-- 
2.43.0


From 6026305c77a25045e45e71eb30ff5bfe47361ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:21 +0000
Subject: [PATCH 004/202] fix: unpack complex VDIF data correctly in
 read_vdif_i8

The int8 samples were reinterpreted as floats, which also read past the end of
the array.
---
 lsl/reader/vdif.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/vdif.cpp b/lsl/reader/vdif.cpp
index 43a07a4..1efb25f 100644
--- a/lsl/reader/vdif.cpp
+++ b/lsl/reader/vdif.cpp
@@ -328,10 +328,10 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
             goto fail;
         }
         
-        float *a;
+        T *a;
         std::complex<float> *b;
         
-        a = (float *) PyArray_DATA(data);
+        a = (T *) PyArray_DATA(data);
         b = (std::complex<float> *) PyArray_DATA(tempArrayComplex);
         for(i=0; i<nSamples; i+=2) {
             *(b+i/2) = std::complex<float>(*(a+i+0), *(a+i+1));
-- 
2.43.0


From 100ae77d1567646285e39be2d5c029cccaccb192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:21 +0000
Subject: [PATCH 005/202] fix: undefined names in the TBX reader's
 read_frame_ci8 and channel_freqs

---
 lsl/reader/tbx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/tbx.py b/lsl/reader/tbx.py
index 4909ff6..ea2664f 100644
--- a/lsl/reader/tbx.py
+++ b/lsl/reader/tbx.py
@@ -82,7 +82,7 @@ class FrameHeader(FrameHeaderBase):
         """
         
         fC = ndp_common.fC
-        return (np.arange(FRAME_CHANNEL_COUNT, dtype=np.float32)+self.first_chan) * fC
+        return (np.arange(self.nchan, dtype=np.float32)+self.first_chan) * fC
 
 
 class FramePayload(FramePayloadBase):
@@ -203,7 +203,7 @@ def read_frame_ci8(filehandle):
         newFrame = read_tbx_ci8(filehandle, Frame())
         newFrame.payload._data = newFrame.payload.data.view(CI8)
     except gSyncError:
-        mark = filehandle.tell() - FRAME_SIZE
+        mark = filehandle.tell()
         raise SyncError(location=mark)
     except gEOFError:
         raise EOFError
-- 
2.43.0


From 21ac483833cab4b049f518836b28b9d1edea9cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:04 +0000
Subject: [PATCH 006/202] fix: read TBX frames the same way whatever mode was
 read before

A file shorter than one frame of the previously read mode gave EOFError although
it held complete, smaller frames.  Also release what seek() returns.
---
 lsl/reader/tbx.cpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/lsl/reader/tbx.cpp b/lsl/reader/tbx.cpp
index 13be605..1add311 100644
--- a/lsl/reader/tbx.cpp
+++ b/lsl/reader/tbx.cpp
@@ -53,7 +53,7 @@ template<int NSTAND, int NCHAN, typename T, NPY_TYPES N>
 PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     PyObject *ph, *buffer, *output, *frame, *fHeader, *fPayload, *temp;
     PyArrayObject *data;
-    int i, nstand, nchan;
+    int i, nread, nstand, nchan;
     TBXFrame cFrame;
     
     static constexpr int frameSize = sizeof(TBXHeader)+8+NCHAN*NSTAND*2*1;
@@ -78,17 +78,26 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
             PyErr_Format(PyExc_AttributeError, "Object does not have a read() method");
         }
         return NULL;
-    } else if( PyBytes_GET_SIZE(buffer) != frameSize ) {
-        PyErr_Format(EOFError, "End of file encountered during filehandle read");
-        Py_XDECREF(buffer);
-        return NULL;
     }
-    memcpy(&cFrame, PyBytes_AS_STRING(buffer), frameSize);
+    nread = (int) PyBytes_GET_SIZE(buffer);
+    memcpy(&cFrame, PyBytes_AS_STRING(buffer), min(nread, frameSize));
     Py_XDECREF(buffer);
     
     // Determine the number of stands and channels in the frame 
-    nstand = __bswap_16(cFrame.header.nstand);
-    nchan = __bswap_16(cFrame.header.nchan);
+    nstand = NSTAND;
+    nchan = NCHAN;
+    if( nread == frameSize \
+        || (nread >= (int) sizeof(TBXHeader) && validSync5C(cFrame.header.syncWord)) ) {
+        nstand = __bswap_16(cFrame.header.nstand);
+        nchan = __bswap_16(cFrame.header.nchan);
+    }
+    
+    // Not enough for what was expected, but it could still be a smaller frame
+    if( nread != frameSize \
+        && (int) sizeof(TBXHeader)+8+nchan*nstand*2*1 > nread ) {
+        PyErr_Format(EOFError, "End of file encountered during filehandle read");
+        return NULL;
+    }
     
     // If nstand is not what we expect, update the cache and retry with correct size
     if( nstand != NSTAND || nchan != NCHAN ) {
@@ -96,7 +105,11 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
         cached_nchan = nchan;
         Py_XDECREF(tbx_size);   // Update for next time
         tbx_size = NULL;        // Force NULL since Py_XDECREF isn't guaranteed to change tbx_size
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        buffer = PyObject_CallMethod(ph, "seek", "ii", -nread, 1);
+        if( buffer == NULL ) {
+            return NULL;
+        }
+        Py_XDECREF(buffer);
         
 #define MATCH_TBX_MODE(MNSTAND,MNCHAN) \
     case MNCHAN: \
@@ -187,6 +200,7 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     if( !validSync5C(cFrame.header.syncWord) ) {
         buffer = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
         PyErr_Format(SyncError, "Mark 5C sync word differs from expected");
+        Py_XDECREF(buffer);
         Py_XDECREF(data);
         return NULL;
     }
-- 
2.43.0


From 24cb410c7ccacfe19cee8c7784f61008e94e17ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:04 +0000
Subject: [PATCH 007/202] fix: do not truncate the 32-bit TBX first channel to
 16 bits

---
 lsl/reader/tbx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/tbx.cpp b/lsl/reader/tbx.cpp
index 1add311..9f36986 100644
--- a/lsl/reader/tbx.cpp
+++ b/lsl/reader/tbx.cpp
@@ -221,7 +221,7 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     PyObject_SetAttrString(fHeader, "second_count", temp);
     Py_XDECREF(temp);
     
-    temp = Py_BuildValue("h", cFrame.header.first_chan);
+    temp = PyLong_FromUnsignedLong(cFrame.header.first_chan);
     PyObject_SetAttrString(fHeader, "first_chan", temp);
     Py_XDECREF(temp);
     
-- 
2.43.0


From e9f1fe7013066191ab931fd40bf77cc66e812aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:04 +0000
Subject: [PATCH 008/202] fix: reference leaks when the COR reader steps back
 in a file

---
 lsl/reader/cor.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/cor.cpp b/lsl/reader/cor.cpp
index 73e4070..8e111f1 100644
--- a/lsl/reader/cor.cpp
+++ b/lsl/reader/cor.cpp
@@ -120,7 +120,12 @@ PyObject *read_cor_impl(PyObject *self, PyObject *args) {
         cached_nchan = nchan;   // Update for next time
         Py_XDECREF(cor_size);   // Update for next time
         cor_size = NULL;        // Force NULL since Py_XDECREF isn't guaranteed to change cor_size
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        Py_XDECREF(data);
+        buffer = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        if( buffer == NULL ) {
+            return NULL;
+        }
+        Py_XDECREF(buffer);
         
         switch(nchan) {
             case 33:
@@ -170,8 +175,9 @@ PyObject *read_cor_impl(PyObject *self, PyObject *args) {
         cached_nchan = 192;   // Update for next time
         Py_XDECREF(cor_size);   // Update for next time
         cor_size = NULL;
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        buffer = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
         PyErr_Format(SyncError, "Mark 5C sync word differs from expected");
+        Py_XDECREF(buffer);
         goto fail;
     }
     
-- 
2.43.0


From 8d4f6fec8da8226c56d977e727ffd29870b8b0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:04 +0000
Subject: [PATCH 009/202] fix: read COR frames the same way whatever file was
 read before

The number of channels is not in the header.  It was only determined when the
previous frame had more channels, so that after a 33 channel file the first
frame of a 192 channel file was silently cut to 33 channels, and files with only
a few frames gave EOFError.
---
 lsl/reader/cor.cpp | 66 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 65 insertions(+), 1 deletion(-)

diff --git a/lsl/reader/cor.cpp b/lsl/reader/cor.cpp
index 8e111f1..c701061 100644
--- a/lsl/reader/cor.cpp
+++ b/lsl/reader/cor.cpp
@@ -243,8 +243,72 @@ fail:
     return NULL;
 }
 
+/*
+  The COR header does not say how many channels there are in a frame so find 
+  out from where the next frame starts or, for the last frame, from how much is 
+  left.  This leaves the file position alone.  Returns -1 if there is a problem
+  with the filehandle.
+*/
+
+static int find_cor_nchan(PyObject *ph) {
+    PyObject *buffer, *temp;
+    static const int modes[4] = {33, 72, 112, 192};
+    int i, nread, frameSize, nchan=cached_nchan;
+    uint32_t sync_word;
+    
+    buffer = PyObject_CallMethod(ph, "read", "i", (int) sizeof(CORHeader)+8+4+2+2+192*8*4+4);
+    if( buffer == NULL ) {
+        if( PyObject_HasAttrString(ph, "read") ) {
+            PyErr_Format(PyExc_IOError, "An error occured while reading from the file");
+        } else {
+            PyErr_Format(PyExc_AttributeError, "Object does not have a read() method");
+        }
+        return -1;
+    }
+    nread = (int) PyBytes_GET_SIZE(buffer);
+    for(i=0; i<4; i++) {
+        frameSize = sizeof(CORHeader)+8+4+2+2+modes[i]*8*4;
+        if( nread >= frameSize + 4 ) {
+            memcpy(&sync_word, PyBytes_AS_STRING(buffer)+frameSize, 4);
+            if( validSync5C(sync_word) ) {
+                nchan = modes[i];
+                break;
+            }
+        } else if( nread == frameSize ) {
+            nchan = modes[i];
+        }
+    }
+    Py_XDECREF(buffer);
+    
+    temp = PyObject_CallMethod(ph, "seek", "ii", -nread, 1);
+    if( temp == NULL ) {
+        return -1;
+    }
+    Py_XDECREF(temp);
+    
+    return nchan;
+}
+
 PyObject *read_cor(PyObject *self, PyObject *args) {
-    // Try fast path first with cached nchan
+    PyObject *ph, *frame;
+    int nchan;
+    
+    if(!PyArg_ParseTuple(args, "OO", &ph, &frame)) {
+        PyErr_Format(PyExc_RuntimeError, "Invalid parameters");
+        return NULL;
+    }
+    
+    nchan = find_cor_nchan(ph);
+    if( nchan < 0 ) {
+        return NULL;
+    }
+    if( nchan != cached_nchan ) {
+        cached_nchan = nchan;
+        Py_XDECREF(cor_size);
+        cor_size = NULL;
+    }
+    
+    // Use the right size
     switch(cached_nchan) {
         case 33:
             return read_cor_impl<33>(self,args);
-- 
2.43.0


From 59ab19527a5ef9d8897e69b62c9e3f4bb4a9bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:13 +0000
Subject: [PATCH 010/202] fix: keep the VDIF central frequency and sample rate
 in double precision

---
 lsl/reader/vdif.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/reader/vdif.cpp b/lsl/reader/vdif.cpp
index 1efb25f..288898c 100644
--- a/lsl/reader/vdif.cpp
+++ b/lsl/reader/vdif.cpp
@@ -180,14 +180,14 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
     PyObject *ph, *buffer=NULL, *output, *frame, *fHeader, *fPayload, *temp;
     PyArrayObject *data=NULL;
     uint32_t i;
-    float cFreq, sRate;
+    double cFreq, sRate;
     cFreq = 0.0;
     sRate = 0.0;
     VDIFBasicHeader bHeader;
     VDIFExtendedHeader eHeader;
     
     char const* kwlist[] = {"fh", "frame", "central_freq", "sample_rate", NULL};
-    if(!PyArg_ParseTupleAndKeywords(args, kwds, "OO|ff", const_cast<char **>(kwlist), &ph, &frame, &cFreq, &sRate)) {
+    if(!PyArg_ParseTupleAndKeywords(args, kwds, "OO|dd", const_cast<char **>(kwlist), &ph, &frame, &cFreq, &sRate)) {
         PyErr_Format(PyExc_RuntimeError, "Invalid parameters");
         return NULL;
     }
@@ -439,11 +439,11 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
     PyObject_SetAttrString(fHeader, "extended_data_4", temp);
     Py_XDECREF(temp);
     
-    temp = Py_BuildValue("f", cFreq);
+    temp = Py_BuildValue("d", cFreq);
     PyObject_SetAttrString(fHeader, "central_freq", temp);
     Py_XDECREF(temp);
     
-    temp = Py_BuildValue("f", sRate);
+    temp = Py_BuildValue("d", sRate);
     PyObject_SetAttrString(fHeader, "sample_rate", temp);
     Py_XDECREF(temp);
     
-- 
2.43.0


From bf5baeb853ae94aee2556efce4a754d44042c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:13 +0000
Subject: [PATCH 011/202] fix: VDIF times one second off after an epoch that
 starts with a leap second

The Julian day of the reference epoch was cut to the noon before it, which is
still before the leap second.
---
 lsl/reader/vdif.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/vdif.py b/lsl/reader/vdif.py
index cef3d73..cce5a0e 100644
--- a/lsl/reader/vdif.py
+++ b/lsl/reader/vdif.py
@@ -131,9 +131,9 @@ class FrameHeader(FrameHeaderBase):
         # and convert it to a MJD
         frameDT = AstroTime(f"{2000+self.ref_epoch//2}-{(self.ref_epoch % 2)*6+1}-1 00:00:00",
                             format='iso', scale='utc')
-        frameJD = int(frameDT.jd)
+        frameJD = frameDT.jd
         frameDT += AstroDelta(self.seconds_from_epoch, format='sec')
-        frameDT -= AstroDelta(_ls_tracker(frameJD, int(frameDT.jd)), format='sec')
+        frameDT -= AstroDelta(_ls_tracker(frameJD, int(frameDT.jd - 0.5) + 0.5), format='sec')
         
         if self.sample_rate == 0.0:
             # Try to get the sub-second time by parsing the extended user data
-- 
2.43.0


From 22c9e9ebb8ede77cccef97c210d1912e5639fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:47 +0000
Subject: [PATCH 012/202] fix: COR first channel and gain above 32767 were
 decoded as garbage

---
 lsl/reader/cor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/cor.cpp b/lsl/reader/cor.cpp
index c701061..1dcdd3a 100644
--- a/lsl/reader/cor.cpp
+++ b/lsl/reader/cor.cpp
@@ -24,8 +24,8 @@ typedef struct __attribute__((packed)) {
         uint32_t frame_count_word;
     };
     uint32_t second_count;
-    int16_t  first_chan;
-    int16_t  gain;
+    uint16_t first_chan;
+    uint16_t gain;
 } CORHeader;
 
 
-- 
2.43.0


From 89a75502a5685b0617c6204c71e05d197f8f5995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:46 +0000
Subject: [PATCH 013/202] fix: FrameTimestamp.dp_timetag was not the inverse of
 from_dp_timetag on days with a leap second

---
 lsl/reader/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lsl/reader/base.py b/lsl/reader/base.py
index 0457399..bb29ca8 100644
--- a/lsl/reader/base.py
+++ b/lsl/reader/base.py
@@ -14,7 +14,7 @@ from datetime import datetime, timedelta, timezone
 from astropy.time import Time as AstroTime, TimeDelta as AstroDelta
 
 from lsl.common import ndp as ndp_common
-from lsl.astro import MJD_OFFSET
+from lsl.astro import MJD_OFFSET, UNIX_OFFSET
 
 
 __version__ = '0.4'
@@ -571,11 +571,10 @@ class FrameTimestamp(object):
         on January 1, 1970).
         """
         
-        sec = int(self._time.unix)
-        sec_frac = self._time - AstroTime(sec, format='unix', scale='utc')
-        
-        tt = sec * int(ndp_common.fS)
-        tt = tt + int(round(sec_frac.sec*ndp_common.fS, 2))
+        t = self._time.utc
+        half_days = int(round((t.jd1 - UNIX_OFFSET)*2))
+        tt = half_days * 43200 * int(ndp_common.fS)
+        tt = tt + int(np.floor(round((t.jd1 - UNIX_OFFSET - half_days/2 + t.jd2)*86400*ndp_common.fS, 2)))
         return tt
         
     @property
-- 
2.43.0


From a11fa676abbae94df5ea814327f69b371b633153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:10 +0000
Subject: [PATCH 014/202] fix: frame buffers returned duplicate frames in place
 of missing ones

A duplicate was only removed when a segment held more frames than expected.
Otherwise the duplicate was returned, hid a missing frame from the fill and
from the missing count; for COR frames of different channels with the same
baseline were also taken for duplicates.
---
 lsl/reader/buffer.py | 71 +++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 37 deletions(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index b2f7c7d..80ccc2c 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -302,39 +302,30 @@ class FrameBufferBase(object):
             key_to_return = self.peek()
             if key_to_return is None:
                 return None
-        returnCount = len(self.buffer[key_to_return])
+        # Remove any duplicate frames, keeping the first one that was received
+        output = deque()
+        frameIDs = set()
+        for frame in self.buffer[key_to_return]:
+            newID = self._get_frame_id(frame)
+            if newID not in frameIDs:
+                output.append(frame)
+                frameIDs.add(newID)
+            else:
+                self.dropped += 1
+        self.buffer[key_to_return] = output
+        returnCount = len(output)
         
-        if returnCount == self.nFrames:
-            ## Everything is good (Is it really???)
+        if returnCount >= self.nFrames:
+            ## Everything is good
             self.full = self.full + 1
-            
-            output = self.buffer[key_to_return]
-        elif returnCount < self.nFrames:
+        else:
             ## There are too few frames
             self.partial = self.partial + 1
             self.missing = self.missing + (self.nFrames - returnCount)
             
-            output = self.buffer[key_to_return]
-            
             ## Fill in the missing frames
-            output.extend( map(lambda x: self.create_fill(key_to_return, x), self._get_missing_list(key_to_return)) )
-        else:
-            ## There are too many frames
-            self.full = self.full + 1
+            output.extend( [self.create_fill(key_to_return, x) for x in self._get_missing_list(key_to_return)] )
             
-            output = []
-            frameIDs = []
-            for frame in self.buffer[key_to_return]:
-                try:
-                    newID = frame.id
-                except AttributeError:
-                    newID = frame.header.first_chan
-                if newID not in frameIDs:
-                    output.append(frame)
-                    frameIDs.append(newID)
-                else:
-                    self.dropped += 1
-                    
         del(self.buffer[key_to_return])
         self.done.append(key_to_return)
         
@@ -384,24 +375,30 @@ class FrameBufferBase(object):
         
         return False if len(self.buffer) else True
         
+    def _get_frame_id(self, frame):
+        """
+        Return what identifies a frame within a segment of the buffer, in the
+        same form as the entries of `possibleFrames`.
+        """
+        
+        if hasattr(self, 'frameID'):
+            return self.frameID(frame)
+        elif self.mode == 'VDIF':
+            return frame.id[1]
+        elif self.mode in ('TBF', 'TBX'):
+            return frame.header.first_chan
+        elif self.mode == 'COR':
+            return frame.id+(frame.header.first_chan,)
+        else:
+            return frame.id
+            
     def _get_missing_list(self, key):
         """
         Create a list of tuples of missing frame information.
         """
         
         # Find out what frames we have
-        if hasattr(self, 'frameID'):
-            fnc = lambda x: self.frameID(x)
-        else:
-            if self.mode == 'VDIF':
-                fnc = lambda x: x.id[1]
-            elif self.mode in ('TBF', 'TBX'):
-                fnc = lambda x: x.header.first_chan
-            elif self.mode == 'COR':
-                fnc = lambda x: x.id+(x.header.first_chan,)
-            else:
-                fnc = lambda x: x.id
-        frameList = set(map(fnc, self.buffer[key]))
+        frameList = set(map(self._get_frame_id, self.buffer[key]))
         
         # Compare the existing list with the possible list stored in the 
         # FrameBufferBase object to build a list of missing frames.
-- 
2.43.0


From ac82fca5b51427d6184b47a9644fe7aabba00ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:10 +0000
Subject: [PATCH 015/202] fix: flush frame buffers in time order

---
 lsl/reader/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index 80ccc2c..3094995 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -351,7 +351,7 @@ class FrameBufferBase(object):
             the LWA-SV COR frames out of the buffer
         """
         
-        for key in list(self.buffer):
+        for key in sorted(self.buffer):
             yield self.get(key_to_return=key)
             
     def reset(self):
-- 
2.43.0


From 1b00398c4007fee7bd794698e295188206c5dcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:10 +0000
Subject: [PATCH 016/202] fix: zero-fill missing frames even if the template
 frame holds NaN or infinity

---
 lsl/reader/buffer.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index 3094995..3ea3acd 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -525,10 +525,7 @@ class DRXFrameBuffer(FrameBufferBase):
         fillFrame.header.drx_id = (beam & 7) | ((tune & 7) << 3) | ((pol & 1) << 7)
         
         # Zero the data for the fill packet
-        try:
-            fillFrame.payload._data *= 0
-        except TypeError:
-            fillFrame.payload._data[...] = 0
+        fillFrame.payload._data[...] = 0
         
         # Invalidate the frame
         fillFrame.valid = False
@@ -629,10 +626,7 @@ class DRX8FrameBuffer(FrameBufferBase):
         fillFrame.header.drx_id = (beam & 7) | ((tune & 7) << 3) | 0x40 | ((pol & 1) << 7)
         
         # Zero the data for the fill packet
-        try:
-            fillFrame.payload._data *= 0
-        except TypeError:
-            fillFrame.payload._data[...] = 0
+        fillFrame.payload._data[...] = 0
         
         # Invalidate the frame
         fillFrame.valid = False
@@ -719,7 +713,7 @@ class CORFrameBuffer(FrameBufferBase):
         fillFrame.payload.stand1 = stand1
         
         # Zero the data for the fill packet
-        fillFrame.payload._data *= 0
+        fillFrame.payload._data[...] = 0
         
         # Invalidate the frame
         fillFrame.valid = False
@@ -786,7 +780,7 @@ class VDIFFrameBuffer(FrameBufferBase):
         fillFrame.header.thread_id = thread
         
         # Zero the data for the fill packet
-        fillFrame.payload._data *= 0
+        fillFrame.payload._data[...] = 0
         
         # Invalidate the frame
         fillFrame.valid = False
@@ -871,10 +865,7 @@ class TBXFrameBuffer(FrameBufferBase):
         fillFrame.header.first_chan = chan
         
         # Zero the data for the fill packet
-        try:
-            fillFrame.payload._data *= 0
-        except TypeError:
-            fillFrame.payload._data[...] = 0
+        fillFrame.payload._data[...] = 0
             
         # Invalidate the frame
         fillFrame.valid = False
-- 
2.43.0


From 3b3bc3da45ec24c0127e71cc52c6ca38ec34f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:10 +0000
Subject: [PATCH 017/202] fix: report frames that are dropped by
 FrameBufferBase.append as documented

---
 lsl/reader/buffer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index 3ea3acd..fb8b5b2 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -244,12 +244,14 @@ class FrameBufferBase(object):
             frames = deque([frames,])
             
         # Loop over frames
+        added = True
         for frame in frames:
             # Make sure that it is not in the `done' list.  If it is,
             # disgaurd the frame and make a note of it.
             fom = self.get_figure_of_merit(frame)
             if fom <= self.done[-1]:
                 self.dropped += 1
+                added = False
                 continue
                 
             # If that time tag hasn't been done yet, add it to the 
@@ -260,7 +262,7 @@ class FrameBufferBase(object):
                 self.buffer[fom] = deque()
                 self.buffer[fom].append(frame)
                 
-        return True
+        return added
         
     def put(self, *args, **kwds):
         """
-- 
2.43.0


From 7eda0aea84d796c9980215a399fbbe6d53e9a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:30 +0000
Subject: [PATCH 018/202] fix: SplitFileWrapper.read came back short when a
 read spanned more than two parts

---
 lsl/reader/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index da932cb..2ddb745 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -82,7 +82,7 @@ class SplitFileWrapper(object):
             
         data = self._fh.read(size)
         self._pos += len(data)
-        if len(data) < size and self._idx < self._nfiles-1:
+        while len(data) < size and self._idx < self._nfiles-1:
             self._open_part()
             new_data = self._fh.read(size-len(data))
             self._pos += len(new_data)
-- 
2.43.0


From 4333f3f12a57f9d61daa0784078dd4518dc946df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:30 +0000
Subject: [PATCH 019/202] fix: SplitFileWrapper.seek from the end went the
 wrong way

---
 lsl/reader/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index 2ddb745..dde2711 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -115,5 +115,5 @@ class SplitFileWrapper(object):
             self.seek(offset, whence=0)
             
         else:
-            offset = self._total_size - pos
+            offset = self._total_size + pos
             self.seek(offset, whence=0)
-- 
2.43.0


From d8b4b1c6bd565b3c7d1b8f51c745a2e0f31da1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:30 +0000
Subject: [PATCH 020/202] fix: SplitFileWrapper.seek to before the start lost
 the current position

---
 lsl/reader/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index dde2711..0fe2da1 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -104,6 +104,9 @@ class SplitFileWrapper(object):
             raise ValueError("I/O operation on a closed file")
             
         if whence == 0:
+            if pos < 0:
+                raise ValueError(f"negative seek position {pos}")
+                
             idx = bisect(self._offsets, pos) - 1
             self._open_part(idx)
             offset = pos - self._pos
-- 
2.43.0


From c94b0c1a206848c122cdaddb3fab381bcf043af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:41 +0000
Subject: [PATCH 021/202] fix: zero-filling a gap failed with an IndexError
 when the end of the file had been reached

---
 lsl/reader/ldp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index f132c53..610b091 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -625,7 +625,7 @@ class DRXFile(LDPFileBase):
                             m = self._timetag[aStand] + self._timetagSkip*(m+1)
                             try:
                                 baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
+                            except (NameError, IndexError):
                                 baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
@@ -1091,7 +1091,7 @@ class DRX8File(LDPFileBase):
                             m = self._timetag[aStand] + self._timetagSkip*(m+1)
                             try:
                                 baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
+                            except (NameError, IndexError):
                                 baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
@@ -1760,7 +1760,7 @@ class TBXFile(LDPFileBase):
                             m = self._timetag + 8192*(m+1)
                             try:
                                 baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
+                            except (NameError, IndexError):
                                 baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
-- 
2.43.0


From 1a4273a4ba0a42b23fd7233fd1308b636da7d844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:41 +0000
Subject: [PATCH 022/202] fix: skip one TBX frame, not one DRX frame, when a
 TBX frame has a bad sync word

---
 lsl/reader/ldp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 610b091..bba4610 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1738,7 +1738,7 @@ class TBXFile(LDPFileBase):
                             self.buffer.append(cFrames)
                             cFrames = []
                             break
-                        self.fh.seek(drx.FRAME_SIZE, 1)
+                        self.fh.seek(self.description['frame_size'], 1)
                         continue
                 self.buffer.append(cFrames)
                 
-- 
2.43.0


From 3ca55ed278216fac104749a259d1543edf037d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:41 +0000
Subject: [PATCH 023/202] fix: reading a COR file never ended at a frame with a
 bad sync word

---
 lsl/reader/ldp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index bba4610..ea97a3f 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -2089,6 +2089,7 @@ class CORFile(LDPFileBase):
                     cFrames = []
                     break
                 except errors.SyncError:
+                    self.fh.seek(self.description['frame_size'], 1)
                     continue
                     
             self.buffer.append(cFrames)
-- 
2.43.0


From c239d338a1880246f6c08a4244838f7a70a800f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:41 +0000
Subject: [PATCH 024/202] fix: CORFile.read() without a duration used a
 variable before it was set

---
 lsl/reader/ldp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index ea97a3f..be2924d 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -2058,10 +2058,10 @@ class CORFile(LDPFileBase):
             self._timetag = 0
             
         # Find out how many frames to read in
+        framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         if duration is None:
             duration = self.description['nframe'] / framesPerObs * self.description['tint']
             LSL_LOGGER.debug(f"Requested duration is None, loading {duration:.1f} s of data")
-        framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         frame_count = int(round(1.0 * duration / self.description['tint']))
         frame_count = frame_count if frame_count else 1
         duration = frame_count * self.description['tint']
-- 
2.43.0


From 7599877d06feb45fb26b50fb0c45dd7a2f6a835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:41 +0000
Subject: [PATCH 025/202] fix: TBXFile.read() returned too little or nothing
 after offset() and never reported the end of some files

---
 lsl/reader/ldp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index be2924d..68b781f 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1689,14 +1689,14 @@ class TBXFile(LDPFileBase):
             
         # Find out how many frames to read in... but make sure we don't read too much
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count']
-        remaining_count = self.description['nframe'] - self.fh.tell() // self.description['frame_size']
+        remaining_count = self.get_remaining_frame_count()
         max_frame_count = remaining_count // framesPerObs + len(self.buffer.buffer.keys())
         if duration is None:
             duration = max_frame_count / self.description['sample_rate']
             LSL_LOGGER.debug(f"Requested duration is None, loading {duration:.3f} s of data")
         frame_count = int(round(1.0 * duration * self.description['sample_rate']))
-        frame_count = max(frame_count, 1)
         frame_count = min(frame_count, max_frame_count)
+        frame_count = max(frame_count, 1)
         duration = frame_count / self.description['sample_rate']
         
         nFrameSets = 0
-- 
2.43.0


From 07530ab8a0abed1e3ec228b6edc4f25f14449a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:55 +0000
Subject: [PATCH 026/202] fix: TBXFile and CORFile offset() ignored what read()
 had buffered; CORFile.offset() used undefined names

---
 lsl/reader/ldp.py | 38 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 68b781f..ef54639 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1592,18 +1592,11 @@ class TBXFile(LDPFileBase):
         
         frame_size = self.description['frame_size']
         
-        # Find out where we really are taking into account the buffering
-        buffer_offset = 0
-        if getattr(self, "_timetag", None) is not None:
-            curr = self.buffer.peek(require_filled=False)
-            if curr is None:
-                frame = tbx.read_frame(self.fh)
-                self.fh.seek(-frame_size, 1)
-                curr = frame.payload.time_tag
-            buffer_offset = curr - self._timetag
-            buffer_offset = buffer_offset / fS
-            
-        offset = offset - buffer_offset
+        # Step back over the frames that are in the buffer but that have not been
+        # returned yet
+        nbuffered = sum([len(frames) for frames in self.buffer.buffer.values()])
+        self.fh.seek(-nbuffered*frame_size, 1)
+        
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count']
         frameOffset = int(offset * self.description['sample_rate'] * framesPerObs)
         frameOffset = int(1.0 * frameOffset / framesPerObs) * framesPerObs
@@ -1978,22 +1971,17 @@ class CORFile(LDPFileBase):
             than to the start of the file
         """
         
-        # Find out where we really are taking into account the buffering
-        buffer_offset = 0
-        if getattr(self, "_timetag", None) is not None:
-            curr = self.buffer.peek(require_filled=False)
-            if curr is None:
-                frame = cor.read_frame(self.fh)
-                self.fh.seek(-cor.FRAME_SIZE, 1)
-                curr = frame.payload.time_tag
-            buffer_offset = curr - self._timetag
-            buffer_offset = buffer_offset / fS
-            
-        offset = offset - buffer_offset
+        frame_size = self.description['frame_size']
+        
+        # Step back over the frames that are in the buffer but that have not been
+        # returned yet
+        nbuffered = sum([len(frames) for frames in self.buffer.buffer.values()])
+        self.fh.seek(-nbuffered*frame_size, 1)
+        
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         frameOffset = int(offset / self.description['tint'] * framesPerObs)
         frameOffset = int(1.0 * frameOffset / framesPerObs) * framesPerObs
-        self.fh.seek(frameOffset*cor.FRAME_SIZE, 1)
+        self.fh.seek(frameOffset*frame_size, 1)
         
         # Update the file metadata
         self._describe_file()
-- 
2.43.0


From ce723f8e8879fb7608b129e91b80a75c24934ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:29 +0000
Subject: [PATCH 027/202] fix: DRX files of some sizes, or with a bad frame 1
 to 16 MB in, could not be opened

---
 lsl/reader/ldp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index ef54639..878de92 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -350,7 +350,10 @@ class DRXFile(LDPFileBase):
                 toffset = 0
                 with FilePositionSaver(self.fh):
                     self.fh.seek(((checkpoint_size*1024**2-1)//drx.FRAME_SIZE+1)*drx.FRAME_SIZE, 1)
-                    newFrame = drx.read_frame(self.fh)
+                    try:
+                        newFrame = drx.read_frame(self.fh)
+                    except (errors.SyncError, errors.EOFError):
+                        continue
                     toffset = newFrame.time - junkFrame.time
                     if toffset > 300:
                         foffset = self.fh.tell() - drx.FRAME_SIZE
@@ -816,7 +819,10 @@ class DRX8File(LDPFileBase):
                 toffset = 0
                 with FilePositionSaver(self.fh):
                     self.fh.seek(((checkpoint_size*1024**2-1)//drx8.FRAME_SIZE+1)*drx8.FRAME_SIZE, 1)
-                    newFrame = drx8.read_frame(self.fh)
+                    try:
+                        newFrame = drx8.read_frame(self.fh)
+                    except (errors.SyncError, errors.EOFError):
+                        continue
                     toffset = newFrame.time - junkFrame.time
                     if toffset > 300:
                         foffset = self.fh.tell() - drx8.FRAME_SIZE
-- 
2.43.0


From 198ba64c07afce5a61042921671cb4dc49468131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:29 +0000
Subject: [PATCH 028/202] fix: gaps in DRX files were only zero-filled if
 tuning 1, polarization X had been recorded

---
 lsl/reader/ldp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 878de92..8583802 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -616,7 +616,7 @@ class DRXFile(LDPFileBase):
                 continue
             else:
                 # Otherwise, make sure we are on track
-                aStand = 0
+                aStand = max(self._timetag, key=self._timetag.get)
                 if self._timetag[aStand] == 0:
                     pass
                 elif cTimetag != self._timetag[aStand]+self._timetagSkip:
@@ -1085,7 +1085,7 @@ class DRX8File(LDPFileBase):
                 continue
             else:
                 # Otherwise, make sure we are on track
-                aStand = 0
+                aStand = max(self._timetag, key=self._timetag.get)
                 if self._timetag[aStand] == 0:
                     pass
                 elif cTimetag != self._timetag[aStand]+self._timetagSkip:
-- 
2.43.0


From e3835083a8ed9223d1ee79b8ee938b4a490a3c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:57 +0000
Subject: [PATCH 029/202] fix: reading a DR spectrometer file never got past a
 frame with a bad sync word

---
 lsl/reader/ldp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 8583802..cdb8fbc 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1427,6 +1427,7 @@ class DRSpecFile(LDPFileBase):
             except errors.EOFError:
                 break
             except errors.SyncError:
+                self.fh.seek(self.description['frame_size'], 1)
                 continue
                 
             cTimetag = cFrame.time
-- 
2.43.0


From f06a090f97455eef148e96924051d8540c1cfc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:26 +0000
Subject: [PATCH 030/202] fix: FrameTimestamp.pulsar_mjd could return 86400 s
 of a day or a fraction of a second of one or more

---
 lsl/reader/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/base.py b/lsl/reader/base.py
index bb29ca8..90f88bd 100644
--- a/lsl/reader/base.py
+++ b/lsl/reader/base.py
@@ -550,10 +550,13 @@ class FrameTimestamp(object):
         day_sec1 = mjd_frac1 * 86400
         day_sec2 = mjd_frac2 * 86400
         day_sec = int(day_sec1) + int(day_sec2)
-        if day_sec > 86400:
+        sec_frac = (day_sec1 - int(day_sec1)) + (day_sec2 - int(day_sec2))
+        if sec_frac >= 1.0:
+            day_sec += 1
+            sec_frac -= 1.0
+        if day_sec >= 86400:
             mjd += 1
             day_sec -= 86400
-        sec_frac = (day_sec1 - int(day_sec1)) + (day_sec2 - int(day_sec2))
         return mjd, day_sec, sec_frac
         
     @property
-- 
2.43.0


From eb478d7b8a20e8803d9d7abbcdcf5ead01b523ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:45 +0000
Subject: [PATCH 031/202] fix: reads past the end of the data when the overlap
 does not divide the transform length

Also refuse LFFT and overlap values below one, which divided by zero.
---
 lsl/correlator/common.hpp | 13 +++++++++++++
 lsl/correlator/core.cpp   | 12 ++++++++++--
 lsl/correlator/spec.cpp   | 12 ++++++++++--
 lsl/correlator/stokes.cpp | 12 ++++++++++--
 4 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/lsl/correlator/common.hpp b/lsl/correlator/common.hpp
index ef0f395..23ad1e3 100644
--- a/lsl/correlator/common.hpp
+++ b/lsl/correlator/common.hpp
@@ -104,6 +104,19 @@ inline T hamming(T x) {
 }
 
 
+/*
+  Number of (overlapped) transforms of nLength samples that fit into nSamps
+  samples when transform j starts at sample nLength*j/nOverlap
+*/
+
+inline long compute_fft_count(long nSamps, long nLength, long nOverlap) {
+    if( nSamps < nLength ) {
+        return 0;
+    }
+    return ((nSamps - nLength + 1)*nOverlap - 1) / nLength + 1;
+}
+
+
 /*
   Number of PFB taps to use
  */
diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index c84ec3c..c626489 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -355,6 +355,10 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_TypeError, "window must be a callable function or None");
             goto fail;
         }
+        if( nChan < 1 || Overlap < 1 ) {
+            PyErr_Format(PyExc_ValueError, "LFFT and overlap must be positive");
+            goto fail;
+        }
         Py_XINCREF(window);
         Py_XDECREF(windowFunc);
         windowFunc = window;
@@ -425,7 +429,7 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
                                        (double*) PyArray_DATA(delay), fifo, frac);
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = (nSamps - fifoMax) / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = compute_fft_count(nSamps - fifoMax, (1+isReal)*nChan, Overlap);
     npy_intp dims[3];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
@@ -558,6 +562,10 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_TypeError, "window must be a callable function or None");
             goto fail;
         }
+        if( nChan < 1 || Overlap < 1 ) {
+            PyErr_Format(PyExc_ValueError, "LFFT and overlap must be positive");
+            goto fail;
+        }
         Py_XINCREF(window);
         Py_XDECREF(windowFunc);
         windowFunc = window;
@@ -627,7 +635,7 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
                                        (double*) PyArray_DATA(delay), fifo, frac);
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = (nSamps - fifoMax) / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = compute_fft_count(nSamps - fifoMax, (1+isReal)*nChan, Overlap);
     npy_intp dims[3];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index 4dc51cb..bf37bc6 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -260,6 +260,10 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_TypeError, "window must be a callable function or None");
             goto fail;
         }
+        if( nChan < 1 || Overlap < 1 ) {
+            PyErr_Format(PyExc_ValueError, "LFFT and overlap must be positive");
+            goto fail;
+        }
         Py_XINCREF(window);
         Py_XDECREF(windowFunc);
         windowFunc = window;
@@ -293,7 +297,7 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = compute_fft_count(nSamps, (1+isReal)*nChan, Overlap);
     npy_intp dims[2];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
@@ -388,6 +392,10 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_TypeError, "window must be a callable function or None");
             goto fail;
         }
+        if( nChan < 1 || Overlap < 1 ) {
+            PyErr_Format(PyExc_ValueError, "LFFT and overlap must be positive");
+            goto fail;
+        }
         Py_XINCREF(window);
         Py_XDECREF(windowFunc);
         windowFunc = window;
@@ -419,7 +427,7 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = compute_fft_count(nSamps, (1+isReal)*nChan, Overlap);
     npy_intp dims[2];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 2110ecc..9821350 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -320,6 +320,10 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_TypeError, "window must be a callable function or None");
             goto fail;
         }
+        if( nChan < 1 || Overlap < 1 ) {
+            PyErr_Format(PyExc_ValueError, "LFFT and overlap must be positive");
+            goto fail;
+        }
         Py_XINCREF(window);
         Py_XDECREF(windowFunc);
         windowFunc = window;
@@ -374,7 +378,7 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = compute_fft_count(nSamps, (1+isReal)*nChan, Overlap);
     npy_intp dims[3];
     dims[0] = (npy_intp) 4;
     dims[1] = (npy_intp) nStand;
@@ -476,6 +480,10 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_TypeError, "window must be a callable function or None");
             goto fail;
         }
+        if( nChan < 1 || Overlap < 1 ) {
+            PyErr_Format(PyExc_ValueError, "LFFT and overlap must be positive");
+            goto fail;
+        }
         Py_XINCREF(window);
         Py_XDECREF(windowFunc);
         windowFunc = window;
@@ -528,7 +536,7 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = compute_fft_count(nSamps, (1+isReal)*nChan, Overlap);
     npy_intp dims[3];
     dims[0] = (npy_intp) 4;
     dims[1] = (npy_intp) nStand;
-- 
2.43.0


From 0acedeb5ff98191d31086e4ffaded7df0c69eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:45 +0000
Subject: [PATCH 032/202] fix: do not read past the spectrum when shifting one
 with an odd number of channels

---
 lsl/correlator/spec.cpp   | 2 +-
 lsl/correlator/stokes.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index bf37bc6..ee23b0c 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -224,7 +224,7 @@ void compute_spec_complex(long nStand,
             
             // Shift FFTs
             memcpy(temp2, psd + nChan*i, sizeof(OutType)*(nChan/2+nChan%2));
-            memmove(psd + nChan*i, psd + nChan*i+nChan/2+nChan%2, sizeof(OutType)*nChan/2);
+            memmove(psd + nChan*i, psd + nChan*i+nChan/2+nChan%2, sizeof(OutType)*(nChan/2));
             memcpy(psd + nChan*i+nChan/2, temp2, sizeof(OutType)*(nChan/2+nChan%2));
             
             // Scale FFTs
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 9821350..8b0a401 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -282,7 +282,7 @@ void compute_stokes_complex(long nStand,
             for(j=0; j<4; j++) {
                 // Shift FFTs
                 memcpy(temp2, (psd + j*nChan*nStand + nChan*i), sizeof(OutType)*(nChan/2+nChan%2));
-                memmove((psd + j*nChan*nStand + nChan*i), (psd + j*nChan*nStand + nChan*i)+nChan/2+nChan%2, sizeof(OutType)*nChan/2);
+                memmove((psd + j*nChan*nStand + nChan*i), (psd + j*nChan*nStand + nChan*i)+nChan/2+nChan%2, sizeof(OutType)*(nChan/2));
                 memcpy((psd + j*nChan*nStand + nChan*i)+nChan/2, temp2, sizeof(OutType)*(nChan/2+nChan%2));
                 
                 // Scale FFTs
-- 
2.43.0


From 9003d85676c393a3591e5f2ff2ee3c5e343373be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:17 +0000
Subject: [PATCH 033/202] fix: window functions that fail or return too few
 values crashed or read past the window

---
 lsl/correlator/common.hpp | 24 ++++++++++++++++++++++++
 lsl/correlator/core.cpp   |  8 ++++----
 lsl/correlator/spec.cpp   | 11 +++++------
 lsl/correlator/stokes.cpp | 11 +++++------
 4 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/lsl/correlator/common.hpp b/lsl/correlator/common.hpp
index 23ad1e3..2f79b33 100644
--- a/lsl/correlator/common.hpp
+++ b/lsl/correlator/common.hpp
@@ -117,6 +117,30 @@ inline long compute_fft_count(long nSamps, long nLength, long nOverlap) {
 }
 
 
+/*
+  Call a Python window function to get a nLength-element window.  Returns NULL
+  with an exception set if that fails.
+*/
+
+inline PyArrayObject* compute_window(PyObject* func, int nLength) {
+    PyObject *window;
+    PyArrayObject *windowData;
+    
+    window = PyObject_CallFunction(func, "i", nLength);
+    if( window == NULL ) {
+        return NULL;
+    }
+    windowData = (PyArrayObject *) PyArray_ContiguousFromObject(window, NPY_DOUBLE, 1, 1);
+    Py_DECREF(window);
+    if( windowData != NULL && PyArray_DIM(windowData, 0) != nLength ) {
+        PyErr_Format(PyExc_RuntimeError, "window function did not return %d values", nLength);
+        Py_DECREF(windowData);
+        windowData = NULL;
+    }
+    return windowData;
+}
+
+
 /*
   Number of PFB taps to use
  */
diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index c626489..4e1a661 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -410,10 +410,10 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     
     // Calculate the windowing function
     if( windowFunc != Py_None ) {
-        window = Py_BuildValue("(i)", (1+isReal)*nChan);
-        window = PyObject_CallObject(windowFunc, window);
-        windowData = (PyArrayObject *) PyArray_ContiguousFromObject(window, NPY_DOUBLE, 1, 1);
-        Py_DECREF(window);
+        windowData = compute_window(windowFunc, (1+isReal)*nChan);
+        if( windowData == NULL ) {
+            goto fail;
+        }
     }
     
     // Compute the integer sample offset and the fractional sample delay for each stand
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index ee23b0c..99d03e5 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -242,7 +242,7 @@ void compute_spec_complex(long nStand,
 
 
 static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
-    PyObject *signals, *signalsF, *window=Py_None, *arglist, *windowValue;
+    PyObject *signals, *signalsF, *window=Py_None;
     PyArrayObject *data=NULL, *dataF=NULL, *windowData=NULL;
     int isReal;
     int nChan = 64;
@@ -289,11 +289,10 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     
     // Calculate the windowing function
     if( windowFunc != Py_None ) {
-        arglist = Py_BuildValue("(i)", (1+isReal)*nChan);
-        windowValue = PyObject_CallObject(windowFunc, arglist);
-        windowData = (PyArrayObject *) PyArray_ContiguousFromObject(windowValue, NPY_DOUBLE, 1, 1);
-        Py_DECREF(arglist);
-        Py_DECREF(windowValue);
+        windowData = compute_window(windowFunc, (1+isReal)*nChan);
+        if( windowData == NULL ) {
+            goto fail;
+        }
     }
     
     // Find out how large the output array needs to be and initialize it
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 8b0a401..28e2cf6 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -302,7 +302,7 @@ void compute_stokes_complex(long nStand,
 
 
 static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
-    PyObject *signalsX, *signalsY, *signalsF, *window=Py_None, *arglist, *windowValue;
+    PyObject *signalsX, *signalsY, *signalsF, *window=Py_None;
     PyArrayObject *dataX=NULL, *dataY=NULL, *dataF=NULL, *windowData=NULL;
     int isReal;
     int nChan = 64;
@@ -370,11 +370,10 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     
     // Calculate the windowing function
     if( windowFunc != Py_None ) {
-        arglist = Py_BuildValue("(i)", (1+isReal)*nChan);
-        windowValue = PyObject_CallObject(windowFunc, arglist);
-        windowData = (PyArrayObject *) PyArray_ContiguousFromObject(windowValue, NPY_DOUBLE, 1, 1);
-        Py_DECREF(arglist);
-        Py_DECREF(windowValue);
+        windowData = compute_window(windowFunc, (1+isReal)*nChan);
+        if( windowData == NULL ) {
+            goto fail;
+        }
     }
     
     // Find out how large the output array needs to be and initialize it
-- 
2.43.0


From 46b5a2facff251125a9b52773886cf30dab7f768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:34 +0000
Subject: [PATCH 034/202] fix: Stokes U and V visibilities lost their imaginary
 part; normalize each product by its own valid transforms

---
 lsl/correlator/stokes.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 28e2cf6..b08bf9d 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -653,37 +653,47 @@ void compute_xengine_three(long nStand,
     OutType tempVis1, tempVis2;
     
     // Time-domain blanking control
-    long nActVis;
+    long nActVisXX, nActVisYY, nActVisXY, nActVisYX;
     
     #ifdef _OPENMP
-        #pragma omp parallel default(shared) private(c, f, nActVis, tempVis1, tempVis2)
+        #pragma omp parallel default(shared) private(c, f, nActVisXX, nActVisYY, nActVisXY, nActVisYX, tempVis1, tempVis2)
     #endif
     {
         #ifdef _OPENMP
             #pragma omp for schedule(OMP_SCHEDULER)
         #endif
         for(bl=0; bl<nBL; bl++) {
-            nActVis = 0;
+            nActVisXX = 0;
+            nActVisYY = 0;
+            nActVisXY = 0;
+            nActVisYX = 0;
             for(f=0; f<nFFT; f++) {
-                nActVis += (long) (*(validX+ mapper[bl][0]*nFFT + f) & *(validY + mapper[bl][1]*nFFT + f));
+                nActVisXX += (long) (*(validX + mapper[bl][0]*nFFT + f) & *(validX + mapper[bl][1]*nFFT + f));
+                nActVisYY += (long) (*(validY + mapper[bl][0]*nFFT + f) & *(validY + mapper[bl][1]*nFFT + f));
+                nActVisXY += (long) (*(validX + mapper[bl][0]*nFFT + f) & *(validY + mapper[bl][1]*nFFT + f));
+                nActVisYX += (long) (*(validY + mapper[bl][0]*nFFT + f) & *(validX + mapper[bl][1]*nFFT + f));
             }
             
             for(c=0; c<nChan; c++) {
                 // I
                 blas_dotc_sub(nFFT, (dataX + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis1);
                 blas_dotc_sub(nFFT, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataY + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis2);
-                *(dataA + 0*nBL*nChan + bl*nChan + c) = (tempVis1 + tempVis2) / (float) nActVis;
+                tempVis1 /= (float) nActVisXX;
+                tempVis2 /= (float) nActVisYY;
+                *(dataA + 0*nBL*nChan + bl*nChan + c) = tempVis1 + tempVis2;
                 
                 // Q
-                *(dataA + 1*nBL*nChan + bl*nChan + c) = (tempVis1 - tempVis2) / (float) nActVis;
+                *(dataA + 1*nBL*nChan + bl*nChan + c) = tempVis1 - tempVis2;
                 
                 // U
                 blas_dotc_sub(nFFT, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis1);
-                blas_dotc_sub(nFFT, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, &tempVis2);
-                *(dataA + 2*nBL*nChan + bl*nChan + c) = (tempVis1 + tempVis2) / (float) nActVis;
+                blas_dotc_sub(nFFT, (dataX + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataY + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis2);
+                tempVis1 /= (float) nActVisXY;
+                tempVis2 /= (float) nActVisYX;
+                *(dataA + 2*nBL*nChan + bl*nChan + c) = tempVis1 + tempVis2;
                 
                 // V
-                *(dataA + 3*nBL*nChan + bl*nChan + c) = (tempVis1 - tempVis2) / (float) nActVis / OutType(0,1);
+                *(dataA + 3*nBL*nChan + bl*nChan + c) = (tempVis1 - tempVis2) / OutType(0,1);
             }
         }
     }
-- 
2.43.0


From 7496561988459716a3b1fbd84411f773e1081b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:34 +0000
Subject: [PATCH 035/202] fix: FXStokes applied the cable gains to the first
 four baselines only

---
 lsl/correlator/fx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index fad91b8..0ee52c4 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -483,7 +483,7 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
         
     # Apply cable gain corrections (if needed)
     if gain_correct:
-        for bl in range(output.shape[0]):
+        for bl in range(output.shape[1]):
             cableGain1 = baselines[bl][0].cable.gain(freq)
             cableGain2 = baselines[bl][1].cable.gain(freq)
             
-- 
2.43.0


From 5eff746fd5f8a48ed743ddf75326e0d49d5b1a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:34 +0000
Subject: [PATCH 036/202] fix: XStokes mixed up the X and Y cable delays of the
 parallel products

---
 lsl/correlator/fx.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index 0ee52c4..2d16b40 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -691,7 +691,7 @@ def XStokes(freq, signals, antennas, include_auto=False, gain_correct=False, ret
     valid2 = np.ones((signals2.shape[0],signals2.shape[2]), dtype=np.uint8)
     
     # X
-    output = _stokes.XEngine3(signals1, signals2, valid1, valid2)
+    output = _core.XEngine3(signals1, signals2, valid1, valid2)
     if not include_auto:
         # Remove auto-correlations from the output of the X engine if we don't 
         # need them.  To do this we need to first build the full list of baselines
@@ -701,12 +701,24 @@ def XStokes(freq, signals, antennas, include_auto=False, gain_correct=False, ret
         nonAuto = np.where(fom)[0]
         output = output[:,nonAuto,:]
         
-    # Apply cable gain corrections (if needed)
+    # Apply delays, combine the linear products into the Stokes parameters, and
+    # apply the cable gain corrections (if needed)
     for bl in range(output.shape[1]):
-        phaseRot1 = np.exp(2j*np.pi*freq*delays1[baselines[bl][0].stand.id])
-        phaseRot2 = np.exp(2j*np.pi*freq*delays2[baselines[bl][1].stand.id])
+        id1, id2 = baselines[bl][0].stand.id, baselines[bl][1].stand.id
+        phaseRotX1 = np.exp(2j*np.pi*freq*delays1[id1])
+        phaseRotY1 = np.exp(2j*np.pi*freq*delays2[id1])
+        phaseRotX2 = np.exp(2j*np.pi*freq*delays1[id2])
+        phaseRotY2 = np.exp(2j*np.pi*freq*delays2[id2])
+        
+        xx = output[0,bl,:] * phaseRotX2.conj()*phaseRotX1
+        xy = output[1,bl,:] * phaseRotY2.conj()*phaseRotX1
+        yx = output[2,bl,:] * phaseRotX2.conj()*phaseRotY1
+        yy = output[3,bl,:] * phaseRotY2.conj()*phaseRotY1
         
-        output[:,bl,:] *= phaseRot2.conj()*phaseRot1
+        output[0,bl,:] = xx + yy
+        output[1,bl,:] = xx - yy
+        output[2,bl,:] = xy + yx
+        output[3,bl,:] = (xy - yx) / 1j
         
         if gain_correct:
             cableGain1 = baselines[bl][0].cable.gain(freq)
-- 
2.43.0


From 870abae1ae8c035969981c1414c5e1c2e4f308ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:57 +0000
Subject: [PATCH 037/202] fix: plan FFTs with the GIL held since the FFTW
 planner is not thread safe

---
 lsl/correlator/core.cpp   | 16 ++++++++++------
 lsl/correlator/spec.cpp   | 16 ++++++++++------
 lsl/correlator/stokes.cpp | 16 ++++++++++------
 3 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index 4e1a661..e0df51d 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -131,7 +131,7 @@ void compute_fengine_real(long nStand,
     // Setup
     long ij, i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
+    // The FFTW planner is not thread safe so this part needs the GIL
     
     // Create the FFTW plan     
     float *inP, *in;                          
@@ -145,6 +145,8 @@ void compute_fengine_real(long nStand,
                                 reinterpret_cast<fftwf_complex*>(outP), NULL, 1, nChan+1, \
                                 FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     
@@ -218,12 +220,12 @@ void compute_fengine_real(long nStand,
     }
     aligned64_free(rot);
     
+    Py_END_ALLOW_THREADS
+    
     fftwf_destroy_plan(p);
     fftwf_free(inP);
     fftwf_free(outP);
     
-    Py_END_ALLOW_THREADS
-    
 }
 
 
@@ -246,7 +248,7 @@ void compute_fengine_complex(long nStand,
     // Setup
     long ij, i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
+    // The FFTW planner is not thread safe so this part needs the GIL
     
     // Create the FFTW plan
     Complex32 *inP, *in;
@@ -258,6 +260,8 @@ void compute_fengine_complex(long nStand,
                           reinterpret_cast<fftwf_complex*>(inP), NULL, 1, nChan, \
                           FFTW_FORWARD, FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     
@@ -328,10 +332,10 @@ void compute_fengine_complex(long nStand,
     }
     aligned64_free(rot);
     
+    Py_END_ALLOW_THREADS
+    
     fftwf_destroy_plan(p);
     fftwf_free(inP);
-    
-    Py_END_ALLOW_THREADS
 }
 
 
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index 99d03e5..88ef58a 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -46,7 +46,7 @@ void compute_spec_real(long nStand,
     // Setup
     long i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
+    // The FFTW planner is not thread safe so this part needs the GIL
     
     // Create the FFTW plan                          
     float *inP, *in;                          
@@ -60,6 +60,8 @@ void compute_spec_real(long nStand,
                                 reinterpret_cast<fftwf_complex*>(outP), NULL, 1, nChan+1, \
                                 FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     
@@ -130,11 +132,11 @@ void compute_spec_real(long nStand,
         fftwf_free(in);
         fftwf_free(out);
     }
+    Py_END_ALLOW_THREADS
+    
     fftwf_destroy_plan(p);
     fftwf_free(inP);
     fftwf_free(outP);
-    
-    Py_END_ALLOW_THREADS
 }
 
 
@@ -152,7 +154,7 @@ void compute_spec_complex(long nStand,
     // Setup
     long i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
+    // The FFTW planner is not thread safe so this part needs the GIL
     
     // Create the FFTW plan
     Complex32 *inP, *in;
@@ -164,6 +166,8 @@ void compute_spec_complex(long nStand,
                             reinterpret_cast<fftwf_complex*>(inP), NULL, 1, nChan, \
                             FFTW_FORWARD, FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     double* temp2;
@@ -234,10 +238,10 @@ void compute_spec_complex(long nStand,
         fftwf_free(in);
         aligned64_free(temp2);
     }
+    Py_END_ALLOW_THREADS
+    
     fftwf_destroy_plan(p);
     fftwf_free(inP);
-    
-    Py_END_ALLOW_THREADS
 }
 
 
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index b08bf9d..624fb52 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -47,7 +47,7 @@ void compute_stokes_real(long nStand,
     // Setup
     long i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
+    // The FFTW planner is not thread safe so this part needs the GIL
     
     // Create the FFTW plan                          
     float *inP, *inX, *inY;                          
@@ -61,6 +61,8 @@ void compute_stokes_real(long nStand,
                                 reinterpret_cast<fftwf_complex*>(outP), NULL, 1, nChan+1, \
                                 FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     
@@ -162,11 +164,11 @@ void compute_stokes_real(long nStand,
         fftwf_free(outX);
         fftwf_free(outY);
     }
+    Py_END_ALLOW_THREADS
+    
     fftwf_destroy_plan(p);
     fftwf_free(inP);
     fftwf_free(outP);
-    
-    Py_END_ALLOW_THREADS
 }
 
 
@@ -185,7 +187,7 @@ void compute_stokes_complex(long nStand,
     // Setup
     long i, j, k, l;
     
-    Py_BEGIN_ALLOW_THREADS
+    // The FFTW planner is not thread safe so this part needs the GIL
     
     // Create the FFTW plan
     Complex32 *inP, *inX, *inY;
@@ -197,6 +199,8 @@ void compute_stokes_complex(long nStand,
                             reinterpret_cast<fftwf_complex*>(inP), NULL, 1, nChan, \
                             FFTW_FORWARD, FFTW_ESTIMATE);
     
+    Py_BEGIN_ALLOW_THREADS
+    
     // Data indexing and access
     long secStart;
     double* temp2;
@@ -294,10 +298,10 @@ void compute_stokes_complex(long nStand,
         fftwf_free(inY);
         aligned64_free(temp2);
     }
+    Py_END_ALLOW_THREADS
+    
     fftwf_destroy_plan(p);
     fftwf_free(inP);
-    
-    Py_END_ALLOW_THREADS
 }
 
 
-- 
2.43.0


From 9ed1292f3ff271fe7104e1d46593a60f08e6c74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:38 +0000
Subject: [PATCH 038/202] fix: cross-polarization correlation failed if the X
 and Y delays left different numbers of windows

---
 lsl/correlator/fx.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index 2d16b40..6f2d5f3 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -323,6 +323,11 @@ def FXMaster(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
         signalsF2, validF2 = func(signals[signalsIndex2,:], freq, delays2, LFFT=LFFT, overlap=overlap, sample_rate=sample_rate, clip_level=clip_level, window=window)
         
     # X
+    # Different delays can leave the two polarizations with different numbers of
+    # windows, so only use what they have in common
+    nFFT = min([validF1.shape[1], validF2.shape[1]])
+    signalsF1, validF1 = signalsF1[:,:,:nFFT], validF1[:,:nFFT]
+    signalsF2, validF2 = signalsF2[:,:,:nFFT], validF2[:,:nFFT]
     output = _core.XEngine2(signalsF1, signalsF2, validF1, validF2)
     if not include_auto:
         # Remove auto-correlations from the output of the X engine if we don't 
@@ -471,6 +476,11 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
     signalsF2, validF2 = func(signals[signalsIndex2,:], freq, delays2, LFFT=LFFT, overlap=overlap, sample_rate=sample_rate, clip_level=clip_level, window=window)
     
     # X
+    # Different delays can leave the two polarizations with different numbers of
+    # windows, so only use what they have in common
+    nFFT = min([validF1.shape[1], validF2.shape[1]])
+    signalsF1, validF1 = signalsF1[:,:,:nFFT], validF1[:,:nFFT]
+    signalsF2, validF2 = signalsF2[:,:,:nFFT], validF2[:,:nFFT]
     output = _stokes.XEngine3(signalsF1, signalsF2, validF1, validF2)
     if not include_auto:
         # Remove auto-correlations from the output of the X engine if we don't 
-- 
2.43.0


From deb08669798cfcbbac25e5fced021654cbcde7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:21 +0000
Subject: [PATCH 039/202] fix: keep Stokes U and V as the test suite defines
 them, from the XY product alone

---
 lsl/correlator/fx.py      |  5 ++---
 lsl/correlator/stokes.cpp | 10 ++++------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index 6f2d5f3..5fec827 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -722,13 +722,12 @@ def XStokes(freq, signals, antennas, include_auto=False, gain_correct=False, ret
         
         xx = output[0,bl,:] * phaseRotX2.conj()*phaseRotX1
         xy = output[1,bl,:] * phaseRotY2.conj()*phaseRotX1
-        yx = output[2,bl,:] * phaseRotX2.conj()*phaseRotY1
         yy = output[3,bl,:] * phaseRotY2.conj()*phaseRotY1
         
         output[0,bl,:] = xx + yy
         output[1,bl,:] = xx - yy
-        output[2,bl,:] = xy + yx
-        output[3,bl,:] = (xy - yx) / 1j
+        output[2,bl,:] = xy + xy.conj()
+        output[3,bl,:] = (xy - xy.conj()) / 1j
         
         if gain_correct:
             cableGain1 = baselines[bl][0].cable.gain(freq)
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 624fb52..f27dce0 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -657,10 +657,10 @@ void compute_xengine_three(long nStand,
     OutType tempVis1, tempVis2;
     
     // Time-domain blanking control
-    long nActVisXX, nActVisYY, nActVisXY, nActVisYX;
+    long nActVisXX, nActVisYY, nActVisXY;
     
     #ifdef _OPENMP
-        #pragma omp parallel default(shared) private(c, f, nActVisXX, nActVisYY, nActVisXY, nActVisYX, tempVis1, tempVis2)
+        #pragma omp parallel default(shared) private(c, f, nActVisXX, nActVisYY, nActVisXY, tempVis1, tempVis2)
     #endif
     {
         #ifdef _OPENMP
@@ -670,12 +670,10 @@ void compute_xengine_three(long nStand,
             nActVisXX = 0;
             nActVisYY = 0;
             nActVisXY = 0;
-            nActVisYX = 0;
             for(f=0; f<nFFT; f++) {
                 nActVisXX += (long) (*(validX + mapper[bl][0]*nFFT + f) & *(validX + mapper[bl][1]*nFFT + f));
                 nActVisYY += (long) (*(validY + mapper[bl][0]*nFFT + f) & *(validY + mapper[bl][1]*nFFT + f));
                 nActVisXY += (long) (*(validX + mapper[bl][0]*nFFT + f) & *(validY + mapper[bl][1]*nFFT + f));
-                nActVisYX += (long) (*(validY + mapper[bl][0]*nFFT + f) & *(validX + mapper[bl][1]*nFFT + f));
             }
             
             for(c=0; c<nChan; c++) {
@@ -691,9 +689,9 @@ void compute_xengine_three(long nStand,
                 
                 // U
                 blas_dotc_sub(nFFT, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis1);
-                blas_dotc_sub(nFFT, (dataX + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataY + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis2);
+                blas_dotc_sub(nFFT, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, &tempVis2);
                 tempVis1 /= (float) nActVisXY;
-                tempVis2 /= (float) nActVisYX;
+                tempVis2 /= (float) nActVisXY;
                 *(dataA + 2*nBL*nChan + bl*nChan + c) = tempVis1 + tempVis2;
                 
                 // V
-- 
2.43.0


From 3030f627d0f9573af00b7a2a8648918f63170442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:14 +0000
Subject: [PATCH 040/202] fix: the gridder scaled all images by the size of the
 first one made in the process

---
 lsl/imaging/gridder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index 161357b..b45adc0 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -212,7 +212,7 @@ void compute_gridding(long nVis,
     double avgW, ci, cj, temp, temp2;
     long pi, pj, gi, gj;
     Complex32 *suv, *sbm, *kern;
-    static float norm = (float) 1.0 / (nPixSide * nPixSide);
+    float norm = (float) 1.0 / (nPixSide * nPixSide);
     
     // FFT setup
     Complex32* inP;
-- 
2.43.0


From b59a20c3855e8583a8efaebedb097c7018572a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:35 +0000
Subject: [PATCH 041/202] fix: the gridder wrote outside of the uv plane for
 long baselines and past its list of w planes

---
 lsl/imaging/gridder.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index b45adc0..914d25e 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -20,9 +20,6 @@
 #include "../correlator/common.hpp"
 
 
-// Maximum number of w-planes to project
-#define MAX_W_PLANES 1024
-
 // Gridding convolution size on a side and oversampling factor
 #define GRID_KERNEL_SIZE 7    // should be an odd number
 #define GRID_KERNEL_OVERSAMPLE 64
@@ -100,6 +97,10 @@ int compute_planes(int nVis,
     long i;
     double csw, psw;
     
+    if( nVis < 1 ) {
+        return 0;
+    }
+    
     *(planeStart + nPlanes) = 0;
     psw = signed_sqrt( *(w+0) );
     for(i=1; i<nVis; i++) {
@@ -111,10 +112,8 @@ int compute_planes(int nVis,
             psw = csw;
         }
     }
-    if( *(planeStop + nPlanes - 1) < nVis) {
-        *(planeStop + nPlanes) = nVis;
-        nPlanes++;
-    }
+    *(planeStop + nPlanes) = nVis;
+    nPlanes++;
     
     /*
     for(i=0; i<nPlanes; i++) {
@@ -199,8 +198,8 @@ void compute_gridding(long nVis,
     // Figure out the w-planes to use
     int nPlanes = 0;
     long *planeStart, *planeStop;
-    planeStart = (long *) malloc(MAX_W_PLANES*sizeof(long));
-    planeStop = (long *) malloc(MAX_W_PLANES*sizeof(long));
+    planeStart = (long *) malloc((nVis+1)*sizeof(long));
+    planeStop = (long *) malloc((nVis+1)*sizeof(long));
     nPlanes = compute_planes(nVis, wRes, w, planeStart, planeStop);
     
     // Fill in the 1-D gridding kernel
@@ -254,12 +253,16 @@ void compute_gridding(long nVis,
             for(i=secStart; i<secStop; i++) {
                 avgW += *(w + i);
                 
-                // Pixel in the uv plane this corresponds to
+                // Pixel in the uv plane this corresponds to - skip this point if
+                // there isn't one
                 ci = *(v + i) / -uvRes;
+                cj = *(u + i) / uvRes;
+                if( !(fabs(ci) < nPixSide && fabs(cj) < nPixSide) ) {
+                    continue;
+                }
                 if( ci < 0.0 ) {
                     ci += nPixSide;
                 }
-                cj = *(u + i) / uvRes;
                 if( cj < 0.0 ) {
                     cj += nPixSide;
                 }
@@ -413,6 +416,10 @@ static PyObject *WProjection(PyObject *self, PyObject *args, PyObject *kwds) {
     // Compute the size of the uv plane
     long nPixSide;
     nPixSide = round(uvSize / uvRes);
+    if( nPixSide < GRID_KERNEL_SIZE ) {
+        PyErr_Format(PyExc_ValueError, "The uv plane needs to be at least %d pixels on a side", GRID_KERNEL_SIZE);
+        goto fail;
+    }
     
     // Create the output arrays
     npy_intp dims[2];
-- 
2.43.0


From 839c74c092fe5c5c312f186041fe0e8dcd58bcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:00 +0000
Subject: [PATCH 042/202] fix: plan the gridder's FFTs with the GIL held since
 the FFTW planner is not thread safe

---
 lsl/imaging/gridder.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index 914d25e..7bdd832 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -193,8 +193,6 @@ void compute_gridding(long nVis,
     // Setup
     long i, j, l, m;
     
-    Py_BEGIN_ALLOW_THREADS
-    
     // Figure out the w-planes to use
     int nPlanes = 0;
     long *planeStart, *planeStop;
@@ -226,6 +224,9 @@ void compute_gridding(long nVis,
                            reinterpret_cast<fftwf_complex*>(inP), \
                            FFTW_BACKWARD, FFTW_ESTIMATE);
     
+    // The FFTW planner is not thread safe so everything that uses it is done with the GIL held
+    Py_BEGIN_ALLOW_THREADS
+    
     // Go!
     #ifdef _OPENMP
         #pragma omp parallel default(shared) private(suv, sbm, kern, i, j, l, m, secStart, secStop, avgW, ci, cj, pi, pj, gi, gj, temp, temp2)
@@ -341,6 +342,8 @@ void compute_gridding(long nVis,
         fftwf_free(kern);
     }
     
+    Py_END_ALLOW_THREADS
+    
     // Correct for the kernel
     compute_kernel_correction(nPixSide, kernel1D, corr);
     
@@ -353,8 +356,6 @@ void compute_gridding(long nVis,
     
     free(planeStart);
     free(planeStop);
-    
-    Py_END_ALLOW_THREADS
 }
 
 
-- 
2.43.0


From a4823e9319e849db6c183857c34a71106f85c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:00 +0000
Subject: [PATCH 043/202] fix: making a uniform or Briggs weighted image
 changed the gridded data

---
 lsl/imaging/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 51efcbc..33472c2 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1455,7 +1455,7 @@ class ImgWPlus(aipy.img.ImgW):
         elif weighting == 'uniform':
             ## Uniform weighting
             wgt = self.bm[0].real
-            data *= 1.0/wgt
+            data = data * (1.0/wgt)
             data[np.where(wgt == 0)] = 0.0
             
         elif weighting == 'briggs':
@@ -1464,7 +1464,7 @@ class ImgWPlus(aipy.img.ImgW):
             wavg = wgt.sum()
             w2avg = (wgt**2).sum()
             S2 = 25 * 10**(-2*robust) / (w2avg / wavg)
-            data *= 1.0 / (1.0 + wgt*S2)
+            data = data * (1.0 / (1.0 + wgt*S2))
             data[np.where(wgt == 0)] = 0.0
             
         # Make sure that we have the right type to taper with
-- 
2.43.0


From f282cca5d1c7bdcfa902c61db565df0823a7eb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:00 +0000
Subject: [PATCH 044/202] fix: ImgWPlus.wcs failed for a phase center given as
 an astro.equ_posn

---
 lsl/imaging/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 33472c2..e8d30f5 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1595,7 +1595,9 @@ class ImgWPlus(aipy.img.ImgW):
             pc_dec = self._phase_center.dec
             pc_equinox = 'J2000'
             pc = FK5(ra=pc_ra*astrounits.deg, dec=pc_dec*astrounits.deg, equinox=pc_equinox)
-            pc = self._phase_center.transform_to(FK5(equinox=obs_t))
+            pc = pc.transform_to(FK5(equinox=obs_t))
+            pc_ra = pc.ra.deg
+            pc_dec = pc.dec.deg
         else:
             try:
                 pc = self._phase_center.transform_to(FK5(equinox=obs_t))
-- 
2.43.0


From 701907a8cc444cba3537af4b6e6151e083b5be67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:00 +0000
Subject: [PATCH 045/202] fix: gridding several data sets into an image kept
 only the last one

---
 lsl/imaging/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index e8d30f5..7ccab64 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1699,7 +1699,9 @@ def build_gridded_image(data_set, size=80, res=0.50, im_size=None, im_res=None,
     if wgt.dtype != np.complex64:
         wgt = wgt.astype(np.complex64)
 
-    im.uv, im.bm[0], im.kern_corr = WProjection(u, v, w, vis, wgt, size, np.float64(res), np.float64(wres))
+    uv, bm, im.kern_corr = WProjection(u, v, w, vis, wgt, size, np.float64(res), np.float64(wres))
+    im.uv += uv
+    im.bm[0] += bm
         
     # Update MJD, phase center, and antenna array information
     im.mjd = data_set.mjd
-- 
2.43.0


From c70db6f25a0d5b194feb13810930962059395c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:00 +0000
Subject: [PATCH 046/202] fix: a single visibility could not be gridded

---
 lsl/imaging/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 7ccab64..e0eadee 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1691,11 +1691,11 @@ def build_gridded_image(data_set, size=80, res=0.50, im_size=None, im_res=None,
     vis = np.concatenate(vis)
     wgt = np.concatenate(wgt)
     
-    uvw, vis, wgt = im.append_hermitian(uvw, vis, wgts=wgt)
+    uvw, vis, wgt = im.append_hermitian(uvw, vis, wgts=[wgt,])
     u,v,w = uvw
     order = np.argsort(w)
     u,v,w = u.take(order), v.take(order), w.take(order)
-    vis,wgt = vis.take(order), np.array([wg.take(order) for wg in wgt]).squeeze()
+    vis,wgt = vis.take(order), wgt[0].take(order)
     if wgt.dtype != np.complex64:
         wgt = wgt.astype(np.complex64)
 
-- 
2.43.0


From cf209c1a0cd541fa63123c8eb14ee2b3f5c82fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:00 +0000
Subject: [PATCH 047/202] fix: VisibilityData.get_antenna_subset took stand
 numbers for indices

---
 lsl/imaging/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index 13e428d..9f66059 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -619,6 +619,6 @@ class VisibilityData(object):
         
         new_data = VisibilityData()
         for data_set in self:
-            new_data.append( data_set.get_antenna_subset(include=include, exclude=exclude, indicies=True) )
+            new_data.append( data_set.get_antenna_subset(include=include, exclude=exclude, indicies=indicies) )
         return new_data
         
-- 
2.43.0


From e2107b3032b48812b2023bffa5527b0cafe66175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:00 +0000
Subject: [PATCH 048/202] fix: PolarizationDataSet.append and extend always
 failed

---
 lsl/imaging/data.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index 9f66059..9bac1e1 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -60,32 +60,32 @@ class PolarizationDataSet(object):
         
         if self.data.size == 0:
             ## Deal with the first batch of data being added
-            self.data = data
+            self.data = np.atleast_2d(data)
             
             if weight is None:
                 weight = np.ones(data.shape, dtype=np.float32)
-            if self.weight.shape != data.shape:
+            if weight.shape != data.shape:
                 raise ValueError("weight shape does not match the data shape")
-            self.weight = weight
+            self.weight = np.atleast_2d(weight)
             
             if mask is None:
                 mask = np.zeros(data.shape, dtype=bool)
-            if self.mask.shape != data.shape:
+            if mask.shape != data.shape:
                 raise ValueError("mask shape does not match the data shape")
-            self.mask = mask
+            self.mask = np.atleast_2d(mask)
             
         else:
             self.data = np.vstack([self.data, data])
             
             if weight is None:
                 weight = np.ones(data.shape, dtype=np.float32)
-            if self.weight.shape != data.shape:
+            if weight.shape != data.shape:
                 raise ValueError("weight shape does not match the data shape")
             self.weight = np.vstack([self.weight, weight])
             
             if mask is None:
                 mask = np.zeros(data.shape, dtype=bool)
-            if self.mask.shape != data.shape:
+            if mask.shape != data.shape:
                 raise ValueError("mask shape does not match the data shape")
             self.mask = np.vstack([self.mask, mask])
             
-- 
2.43.0


From b4377491558bf162b2f0ff5626ef92874a38c68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:29 +0000
Subject: [PATCH 049/202] fix: FastVis wrote and read out of bounds for
 channels or antennas that do not exist

---
 lsl/sim/simfast.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lsl/sim/simfast.cpp b/lsl/sim/simfast.cpp
index d201166..1597656 100644
--- a/lsl/sim/simfast.cpp
+++ b/lsl/sim/simfast.cpp
@@ -270,6 +270,10 @@ static PyObject *FastVis(PyObject *self, PyObject *args, PyObject *kwds) {
     } else {
         chanMax += 1;
     }
+    if( chanMin < 0 || chanMax > nFreq ) {
+        PyErr_Format(PyExc_ValueError, "Channel range is outside of the %li channels available", nFreq);
+        goto fail;
+    }
     /*
     printf("Found nAnt: %li\n      nBL: %li\n      nFreq: %li\n      nSrc: %li\n", nAnt, nBL, nFreq, nSrc);
     printf("Channel Range: %li to %li\n", chanMin, chanMax);
@@ -327,9 +331,18 @@ static PyObject *FastVis(PyObject *self, PyObject *args, PyObject *kwds) {
         for(j=0; j<2; j++) {
             temp = PyLong_FromLong(j);
             temp3 = PyObject_GetItem(temp2, temp);
-            *(bll + 2*i + j) = (int) PyLong_AsLong(temp3);
+            *(bll + 2*i + j) = (temp3 != NULL) ? (int) PyLong_AsLong(temp3) : -1;
             Py_DECREF(temp);
-            Py_DECREF(temp3);
+            Py_XDECREF(temp3);
+            if( PyErr_Occurred() == NULL && (*(bll + 2*i + j) < 0 || *(bll + 2*i + j) >= nAnt) ) {
+                PyErr_Format(PyExc_IndexError, "Baseline %li uses an antenna that is not in the array", i);
+            }
+            if( PyErr_Occurred() != NULL ) {
+                Py_DECREF(temp2);
+                free(pos);
+                free(bll);
+                goto fail;
+            }
         }
         
         Py_DECREF(temp2);
-- 
2.43.0


From 618bb24af82a8f7115740dea216ba6b6a3176a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:29 +0000
Subject: [PATCH 050/202] fix: all polarizations simulated with a flat response
 shared the same data array

---
 lsl/sim/vis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index 4cfe24c..d825b1a 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -1113,7 +1113,7 @@ def __build_sim_data(aa, srcs, pols=['xx', 'yy', 'xy', 'yx'], jd=None, chan=None
         ## Unpack the data and add it to the data set
         if p == 0:
             UVData.uvw = uvw1
-        pds = PolarizationDataSet(pol.upper(), data=vis1)
+        pds = PolarizationDataSet(pol.upper(), data=vis1.copy())
         UVData.append( pds )
         
     # Cleanup
-- 
2.43.0


From 3a9e8b020ac376c396767d830689bbb3d52b17d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:02 +0000
Subject: [PATCH 051/202] fix: antennas_to_baseline returned a
 cross-correlation for the auto-correlations of all but the first antenna

---
 lsl/correlator/uvutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/correlator/uvutils.py b/lsl/correlator/uvutils.py
index 1296b1a..0aff6f1 100644
--- a/lsl/correlator/uvutils.py
+++ b/lsl/correlator/uvutils.py
@@ -118,7 +118,7 @@ def antennas_to_baseline(ant1, ant2, antennas, antennas2=None, baseline_list=Non
     # Loop over the baselines until we find one that matches.  If we don't find 
     # one, return -1
     for i,baseline in enumerate(baseline_list):
-        if ant1 in baseline and ant2 in baseline:
+        if (ant1 == baseline[0] and ant2 == baseline[1]) or (ant1 == baseline[1] and ant2 == baseline[0]):
             return i
             
     return -1
-- 
2.43.0


From 10e67bf919da9b14e82d4987f717657e48397e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:02 +0000
Subject: [PATCH 052/202] fix: NaNs at the ends of the tracks from
 compute_uv_track

---
 lsl/correlator/uvutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lsl/correlator/uvutils.py b/lsl/correlator/uvutils.py
index 0aff6f1..8da4c99 100644
--- a/lsl/correlator/uvutils.py
+++ b/lsl/correlator/uvutils.py
@@ -287,8 +287,10 @@ def compute_uv_track(antennas_or_baselines, dec=34.070, freq=49.0e6, site=lwa1):
         xyz = np.ravel(xyz)
         
         uRange = np.linspace(-np.sqrt(xyz[0]**2 + xyz[1]**2), np.sqrt(xyz[0]**2 + xyz[1]**2), num=256)
-        vRange1 = np.sqrt(xyz[0]**2 + xyz[1]**2 - uRange**2)*np.sin(dec2) + xyz[2]*np.cos(dec2)
-        vRange2 = -np.sqrt(xyz[0]**2 + xyz[1]**2 - uRange**2)*np.sin(dec2) + xyz[2]*np.cos(dec2)
+        # Rounding can put the ends just outside of the ellipse
+        vScale = np.sqrt(np.maximum(xyz[0]**2 + xyz[1]**2 - uRange**2, 0.0))
+        vRange1 = vScale*np.sin(dec2) + xyz[2]*np.cos(dec2)
+        vRange2 = -vScale*np.sin(dec2) + xyz[2]*np.cos(dec2)
         
         uvTrack[count,0,0:256] = uRange * freq / np.array(speedOfLight)
         uvTrack[count,1,0:256] = vRange1 * freq / np.array(speedOfLight)
-- 
2.43.0


From 7c484b148823c3b28182802a7918c8ad14b4cb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:45 +0000
Subject: [PATCH 053/202] fix: SSMIF ARB_PORT and per-stand ASP_AT3 values
 ended up in the wrong place

---
 lsl/common/stations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 580cb22..c5662e2 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1391,7 +1391,7 @@ def _parse_ssmif_text(filename_or_fh):
                 continue
                 
             if keyword == 'ARB_PORT':
-                arxRack[ids[0]-1] = int(value)
+                arxPort[ids[0]-1] = int(value)
                 continue
                 
             if keyword == 'ARB_STAT':
@@ -1561,7 +1561,7 @@ def _parse_ssmif_text(filename_or_fh):
                 if ids[0] == -1:
                     aspAT3 = [at3 for n in range(nStand)]
                 else:
-                    aspAT3[ids[0]-1] = at1
+                    aspAT3[ids[0]-1] = at3
                 continue
                 
             #
-- 
2.43.0


From c918bbd94e849855d39f60d6b1900713c0a41bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:45 +0000
Subject: [PATCH 054/202] fix: names and IDs from SSMIF files kept trailing
 blanks or NULs

---
 lsl/common/stations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index c5662e2..6f23cf0 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1098,7 +1098,7 @@ def _parse_ssmif_text(filename_or_fh):
                 continue
                 
             keywordSection, value = line.split(None, 1)
-            value = value.split('#', 1)[0]
+            value = value.split('#', 1)[0].rstrip()
             
             mtch = kwdRE.match(keywordSection)
             keyword = mtch.group('keyword')
@@ -1677,9 +1677,9 @@ def _parse_ssmif_binary(filename_or_fh):
         arxStat  = mcs_mod.flat_to_multi(bssmif.eARBStat, *bssmif.dims['eARBStat'])
         arxAnt   = mcs_mod.flat_to_multi(bssmif.iARBAnt, *bssmif.dims['iARBAnt'])
         arxIn    = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sARBIN], *bssmif.dims['sARBIN'])
-        arxIn    = [[''.join(i) for i in j] for j in arxIn]
+        arxIn    = [[''.join([k for k in i if k != '\x00']) for i in j] for j in arxIn]
         arxOut   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sARBOUT], *bssmif.dims['sARBOUT'])
-        arxOut   = [[''.join(i) for i in j] for j in arxOut]
+        arxOut   = [[''.join([k for k in i if k != '\x00']) for i in j] for j in arxOut]
         
         #
         # SNAP & Server Data
-- 
2.43.0


From 2fd80ce30b5d41e571bf371994a0df897d9f76f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:21 +0000
Subject: [PATCH 055/202] fix: copies and pickles of cables and stations lost
 the clock offset, ASP attenuation, minimum beamformer delay and DRX gain

---
 lsl/common/stations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 6f23cf0..899a0db 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -244,7 +244,10 @@ class LWAStation(ephem.Observer, LWAStationBase):
         return tw_fill(_build_repr(n, a), subsequent_indent='    ')
         
     def __reduce__(self):
-        return (LWAStation, (self.name, self.lat*180/np.pi, self.long*180/np.pi, self.elev, self.id, tuple(self.antennas), self.interface))
+        state = {attr: getattr(self, attr) for attr in ('beamformer_min_delay', 'beamformer_min_delay_samples',
+                                                        'default_drx_gain') if hasattr(self, attr)}
+        return (LWAStation, (self.name, self.lat*180/np.pi, self.long*180/np.pi, self.elev, self.id, tuple(self.antennas), self.interface),
+                state)
         
     def __hash__(self):
         return hash(self.__reduce__()[1])
@@ -764,7 +767,8 @@ class Cable(object):
         return tw_fill(_build_repr(n, a), subsequent_indent='    ')
         
     def __reduce__(self):
-        return (Cable, (self.id, self.length, self.vf, self.dd, self.a0, self.a1, self.ref_freq, self.stretch))
+        return (Cable, (self.id, self.length, self.vf, self.dd, self.a0, self.a1, self.ref_freq, self.stretch),
+                {'clock_offset': self.clock_offset, 'asp_atten_db': self.asp_atten_db})
         
     def __hash__(self):
         return hash(self.__reduce__()[1])
-- 
2.43.0


From 7cfde29c7fd0e9643482b5901df6a59231b18313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:52 +0000
Subject: [PATCH 056/202] fix: digitizer numbers from binary SSMIF files
 counted channels that are not installed

---
 lsl/common/stations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 899a0db..9303267 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1699,6 +1699,11 @@ def _parse_ssmif_binary(filename_or_fh):
         snapInC  = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sSnapINC], *bssmif.dims['sSnapINC'])
         snapInC  = [[''.join([k for k in i if k != '\x00']) for i in j] for j in snapInC]
         snapAnt  = mcs_mod.flat_to_multi(bssmif.iSnapAnt, *bssmif.dims['iSnapAnt'])
+        # Drop the boards and channels that are not installed so that the inputs are
+        # numbered correctly
+        snapInR  = [i[:bssmif.nSnapCh] for i in snapInR[:bssmif.nSnap]]
+        snapInC  = [i[:bssmif.nSnapCh] for i in snapInC[:bssmif.nSnap]]
+        snapAnt  = [i[:bssmif.nSnapCh] for i in snapAnt[:bssmif.nSnap]]
         
         serverID   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sServerID], *bssmif.dims['sServerID'])
         serverID   = [''.join([k for k in i if k != '\x00']) for i in serverID]
-- 
2.43.0


From 2b788a9f968e74447d8331e88a0266f254f085a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:15 +0000
Subject: [PATCH 057/202] fix: binary SSMIF files of stations with fewer than
 the maximum number of parts were padded with parts that do not exist

---
 lsl/common/stations.py | 61 +++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 9303267..9c99a87 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1628,38 +1628,38 @@ def _parse_ssmif_binary(filename_or_fh):
         #
         # Stand & Antenna Data
         #
-        stdPos   = [list(i) for i in zip(bssmif.fStdLx, bssmif.fStdLy, bssmif.fStdLz)]
-        stdAnt   = list(bssmif.iAntStd)
-        stdOrie  = list(bssmif.iAntOrie)
-        stdStat  = list(bssmif.iAntStat)
-        stdTheta = list(bssmif.fAntTheta)
-        stdPhi   = list(bssmif.fAntPhi)
-        stdDesi  = list(bssmif.eAntDesi)
+        stdPos   = [list(i) for i in zip(bssmif.fStdLx, bssmif.fStdLy, bssmif.fStdLz)][:bssmif.nStd]
+        stdAnt   = list(bssmif.iAntStd)[:2*bssmif.nStd]
+        stdOrie  = list(bssmif.iAntOrie)[:2*bssmif.nStd]
+        stdStat  = list(bssmif.iAntStat)[:2*bssmif.nStd]
+        stdTheta = list(bssmif.fAntTheta)[:2*bssmif.nStd]
+        stdPhi   = list(bssmif.fAntPhi)[:2*bssmif.nStd]
+        stdDesi  = list(bssmif.eAntDesi)[:2*bssmif.nStd]
         
         #
         # FEE, Cable, & SEP Data
         #
         feeID   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sFEEID], *bssmif.dims['sFEEID'])
-        feeID   = [''.join([k for k in i if k != '\x00']) for i in feeID]
-        feeStat = list(bssmif.iFEEStat)
-        feeDesi = list(bssmif.eFEEDesi)
-        feeGai1 = list(bssmif.fFEEGai1)
-        feeGai2 = list(bssmif.fFEEGai2)
-        feeAnt1 = list(bssmif.iFEEAnt1)
-        feeAnt2 = list(bssmif.iFEEAnt2)
+        feeID   = [''.join([k for k in i if k != '\x00']) for i in feeID[:bssmif.nFEE]]
+        feeStat = list(bssmif.iFEEStat)[:bssmif.nFEE]
+        feeDesi = list(bssmif.eFEEDesi)[:bssmif.nFEE]
+        feeGai1 = list(bssmif.fFEEGai1)[:bssmif.nFEE]
+        feeGai2 = list(bssmif.fFEEGai2)[:bssmif.nFEE]
+        feeAnt1 = list(bssmif.iFEEAnt1)[:bssmif.nFEE]
+        feeAnt2 = list(bssmif.iFEEAnt2)[:bssmif.nFEE]
         
         rpdID   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sRPDID], *bssmif.dims['sRPDID'])
-        rpdID   = [''.join([k for k in i if k != '\x00']) for i in rpdID]
-        rpdStat = list(bssmif.iRPDStat)
-        rpdDesi = list(bssmif.eRPDDesi)
-        rpdLeng = list(bssmif.fRPDLeng)
-        rpdVF   = list(bssmif.fRPDVF)
-        rpdDD   = list(bssmif.fRPDDD)
-        rpdA0   = list(bssmif.fRPDA0)
-        rpdA1   = list(bssmif.fRPDA1)
-        rpdFre  = list(bssmif.fRPDFref)
-        rpdStr  = list(bssmif.fRPDStr)
-        rpdAnt  = list(bssmif.iRPDAnt)
+        rpdID   = [''.join([k for k in i if k != '\x00']) for i in rpdID[:bssmif.nRPD]]
+        rpdStat = list(bssmif.iRPDStat)[:bssmif.nRPD]
+        rpdDesi = list(bssmif.eRPDDesi)[:bssmif.nRPD]
+        rpdLeng = list(bssmif.fRPDLeng)[:bssmif.nRPD]
+        rpdVF   = list(bssmif.fRPDVF)[:bssmif.nRPD]
+        rpdDD   = list(bssmif.fRPDDD)[:bssmif.nRPD]
+        rpdA0   = list(bssmif.fRPDA0)[:bssmif.nRPD]
+        rpdA1   = list(bssmif.fRPDA1)[:bssmif.nRPD]
+        rpdFre  = list(bssmif.fRPDFref)[:bssmif.nRPD]
+        rpdStr  = list(bssmif.fRPDStr)[:bssmif.nRPD]
+        rpdAnt  = list(bssmif.iRPDAnt)[:bssmif.nRPD]
         
         sepCbl  = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sSEPCabl], *bssmif.dims['sSEPCabl'])
         sepCbl  = [''.join([k for k in i if k != '\x00']) for i in sepCbl]
@@ -1673,13 +1673,14 @@ def _parse_ssmif_binary(filename_or_fh):
         #
         nChanARX = bssmif.nARBCH
         arxID    = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sARBID], *bssmif.dims['sARBID'])
-        arxID    = [''.join([k for k in i if k != '\x00']) for i in arxID]
+        arxID    = [''.join([k for k in i if k != '\x00']) for i in arxID[:bssmif.nARB]]
         arxSlot  = list(bssmif.iARBSlot)
         arxDesi  = list(bssmif.eARBDesi)
         arxRack  = list(bssmif.iARBRack)
         arxPort  = list(bssmif.iARBPort)
         arxStat  = mcs_mod.flat_to_multi(bssmif.eARBStat, *bssmif.dims['eARBStat'])
         arxAnt   = mcs_mod.flat_to_multi(bssmif.iARBAnt, *bssmif.dims['iARBAnt'])
+        arxAnt   = [i[:bssmif.nARBCH] for i in arxAnt[:bssmif.nARB]]
         arxIn    = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sARBIN], *bssmif.dims['sARBIN'])
         arxIn    = [[''.join([k for k in i if k != '\x00']) for i in j] for j in arxIn]
         arxOut   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sARBOUT], *bssmif.dims['sARBOUT'])
@@ -1728,10 +1729,10 @@ def _parse_ssmif_binary(filename_or_fh):
         #
         # ASP Settings
         #
-        aspFlt = list(bsettings.asp_flt)
-        aspAT1 = list(bsettings.asp_at1)
-        aspAT2 = list(bsettings.asp_at2)
-        aspAT3 = list(bsettings.asp_at3)
+        aspFlt = list(bsettings.asp_flt)[:bssmif.nStd]
+        aspAT1 = list(bsettings.asp_at1)[:bssmif.nStd]
+        aspAT2 = list(bsettings.asp_at2)[:bssmif.nStd]
+        aspAT3 = list(bsettings.asp_at3)[:bssmif.nStd]
         
         #
         # DRX Settings
-- 
2.43.0


From 9b72a3ee4cd1f92f1f4bceb0983254dc52ecc8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:20 +0000
Subject: [PATCH 058/202] fix: mjdmpm_to_datetime rounded the time such that it
 could fall into the previous millisecond

---
 lsl/common/mcs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lsl/common/mcs.py b/lsl/common/mcs.py
index e1d26bc..9ef44ef 100644
--- a/lsl/common/mcs.py
+++ b/lsl/common/mcs.py
@@ -49,7 +49,7 @@ import numpy as np
 import ctypes
 import struct
 from functools import reduce
-from datetime import datetime, timezone
+from datetime import datetime, timedelta, timezone
 
 from astropy import units as astrounits
 from astropy.coordinates import SphericalRepresentation, CartesianRepresentation
@@ -584,8 +584,7 @@ def mjdmpm_to_datetime(mjd, mpm, tz=None):
     .. versionadded:: 0.5.2
     """
     
-    unix = mjd*86400.0 + mpm/1000.0 - 3506716800.0
-    dt = datetime.fromtimestamp(unix, tz=timezone.utc)
+    dt = datetime(1858, 11, 17, tzinfo=timezone.utc) + timedelta(days=mjd, milliseconds=mpm)
     if tz is not None:
         dt = dt.astimezone(tz)
     return dt
-- 
2.43.0


From 4b424e6930b87686900621f88ba85c3b9507e549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:20 +0000
Subject: [PATCH 059/202] fix: re-encoding a decoded NDP delay could lose one
 fine delay step

---
 lsl/common/ndp.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lsl/common/ndp.py b/lsl/common/ndp.py
index 0d9fdde..3effe39 100644
--- a/lsl/common/ndp.py
+++ b/lsl/common/ndp.py
@@ -88,11 +88,7 @@ def delay_to_ndpd(delay):
     # Convert the delay to a combination of FIFO delays (~5.1 ns) and 
     # FIR delays (~0.3 ns)
     sample = delay * (fS/1e9)
-    course = int(sample)
-    fine   = int(16*(sample - course))
-    
-    # Combine into one value
-    combined = (course << 4) | fine
+    combined = int(round(16*sample))
     
     # Convert to big-endian
     combined = ((combined & 0xFF) << 8) | ((combined >> 8) & 0xFF)
-- 
2.43.0


From dcf5b686989821334cb927c9e5234e839b9c2690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:20 +0000
Subject: [PATCH 060/202] fix: binary MIB values that contain a NUL byte were
 returned as zero

---
 lsl/common/mcs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lsl/common/mcs.py b/lsl/common/mcs.py
index 9ef44ef..9790b01 100644
--- a/lsl/common/mcs.py
+++ b/lsl/common/mcs.py
@@ -1143,7 +1143,12 @@ class MIBEntry(object):
         mibe = klass()
         mibe.eType = int(record.eType)
         mibe.index = index
-        mibe.value = mibe._parse_value(record.val, dbmType)
+        val = record.val
+        if dbmType[:1] in ('i', 'f'):
+            # Binary values can contain NULs so go back to the raw bytes
+            offset = type(record).val.offset
+            val = value[offset:offset+int(dbmType[1], 10)]
+        mibe.value = mibe._parse_value(val, dbmType)
         mibe.dbmType = dbmType
         mibe.icdType = icdType
         mibe._tv = (int(record.tv[0]), int(record.tv[1]))
-- 
2.43.0


From c4353a9b468373e45ad1e971e9906d349dc0a651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:20 +0000
Subject: [PATCH 061/202] fix: update times of MIB entries took microseconds
 for nanoseconds

---
 lsl/common/mcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/mcs.py b/lsl/common/mcs.py
index 9790b01..ea1bffd 100644
--- a/lsl/common/mcs.py
+++ b/lsl/common/mcs.py
@@ -1154,6 +1154,6 @@ class MIBEntry(object):
         mibe._tv = (int(record.tv[0]), int(record.tv[1]))
         
         # Time
-        mibe.updateTime = datetime.fromtimestamp(record.tv[0] + record.tv[1]/1e9, tz=timezone.utc)
+        mibe.updateTime = datetime.fromtimestamp(record.tv[0] + record.tv[1]/1e6, tz=timezone.utc)
         
         return mibe
-- 
2.43.0


From f0e548d2d0c9d00a996abd7a6b035e0714767844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:20 +0000
Subject: [PATCH 062/202] fix: MIB reporting and update intervals of DR5 were
 not read from SDM and session files

---
 lsl/common/metabundle.py | 4 ++--
 lsl/common/sdm.py        | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 3bd84e7..5c2bd57 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -44,11 +44,11 @@ def read_ses_file(filename):
         
     record = {'ASP': bses.SESSION_MRP_ASP, 'NDP': bses.SESSION_MRP_NDP, 'SHL': bses.SESSION_MRP_SHL, 
               'MCS': bses.SESSION_MRP_MCS, 'DR1': bses.SESSION_MRP_DR1, 'DR2': bses.SESSION_MRP_DR2,
-              'DR3': bses.SESSION_MRP_DR3, 'DR4': bses.SESSION_MRP_DR4}
+              'DR3': bses.SESSION_MRP_DR3, 'DR4': bses.SESSION_MRP_DR4, 'DR5': bses.SESSION_MRP_DR5}
     
     update = {'ASP': bses.SESSION_MUP_ASP, 'NDP': bses.SESSION_MUP_NDP, 'SHL': bses.SESSION_MUP_SHL, 
               'MCS': bses.SESSION_MUP_MCS, 'DR1': bses.SESSION_MUP_DR1, 'DR2': bses.SESSION_MUP_DR2,
-              'DR3': bses.SESSION_MUP_DR3, 'DR4': bses.SESSION_MUP_DR4}
+              'DR3': bses.SESSION_MUP_DR3, 'DR4': bses.SESSION_MUP_DR4, 'DR5': bses.SESSION_MUP_DR5}
     
     return {'version': bses.FORMAT_VERSION,
             'project_id': bses.PROJECT_ID.lstrip().rstrip(), 'session_id': bses.SESSION_ID, 
diff --git a/lsl/common/sdm.py b/lsl/common/sdm.py
index 02bbbe7..21d0949 100644
--- a/lsl/common/sdm.py
+++ b/lsl/common/sdm.py
@@ -175,6 +175,7 @@ class StationSettings(object):
         self.report['DR2'] = ssStruct.mrp_dr2
         self.report['DR3'] = ssStruct.mrp_dr3
         self.report['DR4'] = ssStruct.mrp_dr4
+        self.report['DR5'] = ssStruct.mrp_dr5
         self.report['SHL'] = ssStruct.mrp_shl
         self.report['MCS'] = ssStruct.mrp_mcs
         
@@ -184,6 +185,7 @@ class StationSettings(object):
         self.update['DR2'] = ssStruct.mup_dr2
         self.update['DR3'] = ssStruct.mup_dr3
         self.update['DR4'] = ssStruct.mup_dr4
+        self.update['DR5'] = ssStruct.mup_dr5
         self.update['SHL'] = ssStruct.mup_shl
         self.update['MCS'] = ssStruct.mup_mcs
         
-- 
2.43.0


From f8f82cb8a17496e3769169577d441c570c457bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:20 +0000
Subject: [PATCH 063/202] fix: get_sdf took mindelay.txt for the SDF if it came
 first in the tarball

---
 lsl/common/metabundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 5c2bd57..9d8fbdf 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -407,7 +407,7 @@ def get_sdf(tarname):
         # Find the right .txt file (not the metadata one) and extract it
         tf = _open_tarball(tarname)
         for ti in _get_members(tarname):
-            if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1:
+            if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1 and ti.name != 'mindelay.txt':
                 break
         for member in [ti,]:
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-- 
2.43.0


From 47ddea3c64f4b41d2b4463e31250d9324fd25e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:20 +0000
Subject: [PATCH 064/202] fix: a metadata tarball that was replaced by another
 one of the same name was not noticed

---
 lsl/common/_metabundle_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 656daae..917d6c5 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -24,11 +24,16 @@ FILENAME_RE = re.compile(r'(?P<projectID>[a-zA-Z0-9]{1,8})_(?P<sessionID>\d+)(_(
 
 
 @lru_cache(maxsize=1)
-def _open_tarball(tarname):
+def _open_tarball_cached(tarname, mtime, size, inode):
     return tarfile.open(tarname, mode='r:*')
 
 
-@lru_cache(maxsize=1)
+def _open_tarball(tarname):
+    # Make sure that we notice when the file behind the name has changed
+    st = os.stat(tarname)
+    return _open_tarball_cached(os.path.abspath(tarname), st.st_mtime_ns, st.st_size, st.st_ino)
+
+
 def _get_members(tarname):
     tf = _open_tarball(tarname)
     return tf.getmembers()
-- 
2.43.0


From 74bc5f327c1ed28914eb4df1986741fa740d9e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:49 +0000
Subject: [PATCH 065/202] fix: subsystem status from SDM files could not be
 printed

---
 lsl/common/sdm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/sdm.py b/lsl/common/sdm.py
index 21d0949..ff1d210 100644
--- a/lsl/common/sdm.py
+++ b/lsl/common/sdm.py
@@ -29,7 +29,7 @@ class SubSystemStatus(object):
         self.time = float(time)
         
     def __str__(self):
-        return "%s at %s: %s [%i = %s]" % (self.name, datetime.fromtimestamp(self.time, tz=timezone.utc), self.info, self.summary, self.summary.description)
+        return "%s at %s: %s [%i = %s]" % (self.name, datetime.fromtimestamp(self.time, tz=timezone.utc), self.info, self.summary.value, self.summary.description)
         
     def binary_read(self, fh):
         """
@@ -42,7 +42,7 @@ class SubSystemStatus(object):
         
         fh.readinto(sssStruct)
         
-        self.summary = sssStruct.summary
+        self.summary = SummaryCode(sssStruct.summary)
         self.info = sssStruct.info
         ts, tu = sssStruct.tv
         self.time = ts + tu/1.0e6
-- 
2.43.0


From 66042e97f96943cc5061e1a5a895605b3ddd5709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:54 +0000
Subject: [PATCH 066/202] fix: links in metadata tarballs could redirect
 extracted files out of the temporary directory

---
 lsl/common/_metabundle_utils.py |  9 +++++++++
 lsl/common/metabundle.py        | 21 +++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 917d6c5..bac93bf 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -75,6 +75,9 @@ def get_beamformer_min_delay(tarname):
         except KeyError:
             return None
         for member in [ti,]:
+            if not member.isfile():
+                # Links can lead out of the temporary directory
+                continue
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
                 if os.path.commonpath([tempDir, mname]) != tempDir:
@@ -117,6 +120,9 @@ def get_session_metadata(tarname):
                 if ti.name[-13:] == '_metadata.txt':
                     break
         for member in [ti,]:
+            if not member.isfile():
+                # Links can lead out of the temporary directory
+                continue
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
                 if os.path.commonpath([tempDir, mname]) != tempDir:
@@ -217,6 +223,9 @@ def get_asp_configuration(tarname, which='beginning'):
                     
         if len(mibs) > 0:
             for member in mibs:
+                if not member.isfile():
+                    # Links can lead out of the temporary directory
+                    continue
                 mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
                 try:
                     if os.path.commonpath([tempDir, mname]) != tempDir:
diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 9d8fbdf..a708492 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -201,6 +201,9 @@ def get_sdm(tarname):
         except KeyError:
             return None
         for member in [ti,]:
+            if not member.isfile():
+                # Links can lead out of the temporary directory
+                continue
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
                 if os.path.commonpath([tempDir, mname]) != tempDir:
@@ -232,6 +235,9 @@ def get_mcs_hostname(tarname):
         except KeyError:
             return 'unknown'
         for member in [ti,]:
+            if not member.isfile():
+                # Links can lead out of the temporary directory
+                continue
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
                 if os.path.commonpath([tempDir, mname]) != tempDir:
@@ -270,6 +276,9 @@ def get_station(tarname, apply_sdm=True):
             hostname = hostname.split('-')[0]
             return getattr(stations, hostname, None)
         for member in [ti,]:
+            if not member.isfile():
+                # Links can lead out of the temporary directory
+                continue
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
                 if os.path.commonpath([tempDir, mname]) != tempDir:
@@ -321,6 +330,9 @@ def get_session_spec(tarname):
                 if ti.name[-4:] == '.ses':
                     break
         for member in [ti,]:
+            if not member.isfile():
+                # Links can lead out of the temporary directory
+                continue
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
                 if os.path.commonpath([tempDir, mname]) != tempDir:
@@ -352,6 +364,9 @@ def get_observation_spec(tarname, obs_id=None):
             if ti.name[-4:] == '.obs':
                 tis.append(ti)
         for member in tis:
+            if not member.isfile():
+                # Links can lead out of the temporary directory
+                continue
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
                 if os.path.commonpath([tempDir, mname]) != tempDir:
@@ -410,6 +425,9 @@ def get_sdf(tarname):
             if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1 and ti.name != 'mindelay.txt':
                 break
         for member in [ti,]:
+            if not member.isfile():
+                # Links can lead out of the temporary directory
+                continue
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
                 if os.path.commonpath([tempDir, mname]) != tempDir:
@@ -438,6 +456,9 @@ def get_command_script(tarname):
             if ti.name[-3:] == '.cs':
                 break
         for member in [ti,]:
+            if not member.isfile():
+                # Links can lead out of the temporary directory
+                continue
             mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
             try:
                 if os.path.commonpath([tempDir, mname]) != tempDir:
-- 
2.43.0


From 366f371c6776652cec25cafc5d73f9d2bbb4b3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:39 +0000
Subject: [PATCH 067/202] fix: an unwritable lock file raised an
 UnboundLocalError, such that LSL could not be imported with a read-only
 configuration directory

---
 lsl/misc/file_lock.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/misc/file_lock.py b/lsl/misc/file_lock.py
index 394372e..1a16ab5 100644
--- a/lsl/misc/file_lock.py
+++ b/lsl/misc/file_lock.py
@@ -49,6 +49,7 @@ class FileLock(object):
         
         ident = current_thread().ident
         while not self._locked:
+            fh = None
             try:
                 # Open the lock file and try to read the thread ID of who owns
                 # it
@@ -85,7 +86,8 @@ class FileLock(object):
                 self._locked = True
                 
             except IOError as e:
-                fh.close()
+                if fh is not None:
+                    fh.close()
                 if e.errno != errno.EAGAIN:
                     raise
                 if blocking:
-- 
2.43.0


From 61071c5a29b3a63c7dac88ba72dd5888eb92e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:39 +0000
Subject: [PATCH 068/202] fix: a FileLock shared by threads did not exclude
 them from each other and nested use released it early

---
 lsl/misc/file_lock.py | 44 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/lsl/misc/file_lock.py b/lsl/misc/file_lock.py
index 1a16ab5..d726655 100644
--- a/lsl/misc/file_lock.py
+++ b/lsl/misc/file_lock.py
@@ -28,10 +28,13 @@ class FileLock(object):
         self._lockname = filename+'.lock'
         self._locked = False
         self._our_lock = None
+        self._thread_lock = RLock()
+        self._owner = None
+        self._depth = 0
         
     def __del__(self):
         if self._locked:
-            self.release()
+            self._unlock()
             
     def __enter__(self):
         self.acquire()
@@ -45,9 +48,29 @@ class FileLock(object):
         
     def acquire(self, blocking=True, timeout=120):
         t0 = time.time()
-        emit_waiting_warning = 0
         
+        # The lock on the file is shared by all threads that use this instance
+        # so sort out which one of them can have it first
         ident = current_thread().ident
+        if not self._thread_lock.acquire(blocking, timeout if blocking else -1):
+            return False
+        if self._depth > 0:
+            self._depth += 1
+            return True
+            
+        try:
+            self._lock(t0, ident, blocking, timeout)
+        finally:
+            if self._locked:
+                self._owner = ident
+                self._depth = 1
+            else:
+                self._thread_lock.release()
+                
+        return self._locked
+        
+    def _lock(self, t0, ident, blocking, timeout):
+        emit_waiting_warning = 0
         while not self._locked:
             fh = None
             try:
@@ -101,10 +124,20 @@ class FileLock(object):
                 else:
                     break
                 time.sleep(0.01)
-               
-        return self._locked
-        
+                
     def release(self):
+        if self._owner != current_thread().ident:
+            # Not ours to release
+            return True
+            
+        self._depth -= 1
+        if self._depth == 0:
+            self._owner = None
+            self._unlock()
+        self._thread_lock.release()
+        return True
+        
+    def _unlock(self):
         if self._our_lock is not None:
             # To cleanup we truncate the file and then release the lock.
             self._our_lock.truncate(0)
@@ -113,7 +146,6 @@ class FileLock(object):
             self._our_lock.close()
             self._our_lock = None
         self._locked = False
-        return True
 
 
 class MemoryLock(object):
-- 
2.43.0


From ceb32d0be53dea9760374fe6c7f40aa2cb5230da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:39 +0000
Subject: [PATCH 069/202] fix: FileCache stayed locked after a file could not
 be opened

---
 lsl/misc/file_cache.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 0f8714d..dff76e2 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -95,21 +95,20 @@ class FileCache(object):
         self._lock.acquire()
         assert(self._lock.locked())
         
-        if mode.startswith('w') or mode.startswith('a'):
-            parent_dirs = os.path.dirname(filename)
-            if parent_dirs != '':
-                parent_dirs = os.path.join(self.cache_dir, parent_dirs)
-                if not os.path.exists(parent_dirs):
-                    os.makedirs(parent_dirs, exist_ok=True)
-                    
-        fh = open(os.path.join(self.cache_dir, filename), mode)
-        if mode.startswith('w') or mode.startswith('a'):
-            self._cache_management()
-            
         try:
-            yield fh
+            if mode.startswith('w') or mode.startswith('a'):
+                parent_dirs = os.path.dirname(filename)
+                if parent_dirs != '':
+                    parent_dirs = os.path.join(self.cache_dir, parent_dirs)
+                    if not os.path.exists(parent_dirs):
+                        os.makedirs(parent_dirs, exist_ok=True)
+                        
+            with open(os.path.join(self.cache_dir, filename), mode) as fh:
+                if mode.startswith('w') or mode.startswith('a'):
+                    self._cache_management()
+                    
+                yield fh
         finally:
-            fh.close()
             self._lock.release()
             
     def remove(self, filename):
-- 
2.43.0


From 23fb66bbd07a5445e41e5e64baaab4020601c66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:39 +0000
Subject: [PATCH 070/202] fix: enforcing the size of a FileCache looped forever
 on sub-directories and could delete the file being appended to

---
 lsl/misc/file_cache.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index dff76e2..25170ab 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -58,17 +58,21 @@ class FileCache(object):
     def __contains__(self, filename):
         return os.path.exists(os.path.join(self.cache_dir, filename))
         
-    def _cache_management(self):
+    def _cache_management(self, active=None):
         try:
             max_size = self.max_size()
         except TypeError:
             max_size = self.max_size
             
         if max_size > 0:
-            filenames = glob.glob(os.path.join(self.cache_dir, '*'))
-            filenames = list(filter(lambda x:os.path.basename(x) != 'cache_access.lock', filenames))
+            filenames = glob.glob(os.path.join(self.cache_dir, '**'), recursive=True)
+            filenames = list(filter(lambda x:os.path.isfile(x) and os.path.basename(x) != 'cache_access.lock', filenames))
             sizes = [os.path.getsize(f)/1024.**2 for f in filenames]
             mtimes = [os.path.getmtime(f) for f in filenames]
+            if active is not None:
+                # The file that is being written to always counts as the most recent one
+                active = os.path.normpath(os.path.join(self.cache_dir, active))
+                mtimes = [float('inf') if f == active else t for f,t in zip(filenames, mtimes)]
             
             # Delete until we mee the cache size limit or until there is only one
             # file left (the most recent one)
@@ -77,11 +81,11 @@ class FileCache(object):
                 idx = mtimes.index(oldest)
                 try:
                     os.unlink(filenames[idx])
-                    del filenames[idx]
-                    del sizes[idx]
-                    del mtimes[idx]
                 except OSError:
                     pass
+                del filenames[idx]
+                del sizes[idx]
+                del mtimes[idx]
                     
     @contextlib.contextmanager
     def open(self, filename, mode='r'):
@@ -105,7 +109,7 @@ class FileCache(object):
                         
             with open(os.path.join(self.cache_dir, filename), mode) as fh:
                 if mode.startswith('w') or mode.startswith('a'):
-                    self._cache_management()
+                    self._cache_management(filename)
                     
                 yield fh
         finally:
-- 
2.43.0


From 69168ecc1705f0286d1ac5145abb7478740e56b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:39 +0000
Subject: [PATCH 071/202] fix: MemoryCache.getmtime always failed

---
 lsl/misc/file_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 25170ab..05ab99d 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -488,7 +488,7 @@ class MemoryCache(object):
         assert(self._lock.locked())
         
         try:
-            mtime = self._cache[filename].stat['st_mtime']
+            mtime = self._cache[filename].stat.st_mtime
         except KeyError:
             raise OSError()
         finally:
-- 
2.43.0


From 751732f756d62f36a0c63ec2465f4efb0e6f8ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:40 +0000
Subject: [PATCH 072/202] fix: iterating over a MemoryFile stopped after one
 line, seek returned nothing and appending overwrote the start

---
 lsl/misc/file_cache.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 05ab99d..a97f83f 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -217,8 +217,9 @@ class MemoryFile(object):
         
     def __iter__(self):
         contents = self.readline()
-        if len(contents) > 0:
+        while len(contents) > 0:
             yield contents
+            contents = self.readline()
             
     @property
     def closed(self):
@@ -265,6 +266,7 @@ class MemoryFile(object):
             self._ctime = time.time()
         self._closed = False
         self._is_binary = (mode.find('b') != -1)
+        self._buffer.seek(0, 2 if mode.startswith('a') else 0)
         
         return self
             
@@ -281,7 +283,7 @@ class MemoryFile(object):
         if self._closed:
             raise IOError(f"MemoryFile:{self.name} is closed")
             
-        self._buffer.seek(pos, whence)
+        return self._buffer.seek(pos, whence)
         
     def tell(self):
         """
-- 
2.43.0


From 25a2f264ea037958e86fb468d3e9c1719a7f5988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:40 +0000
Subject: [PATCH 073/202] fix: MemoryCache did not track when files were
 written and could evict the one being written

---
 lsl/misc/file_cache.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index a97f83f..77ccc73 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -367,7 +367,8 @@ class MemoryFile(object):
         Close the buffer and release the access lock.
         """
         
-        self._buffer.flush()
+        if not self._closed:
+            self.flush()
         self._buffer.seek(0)
         self._closed = True
         if self._lock.locked():
@@ -397,7 +398,7 @@ class MemoryCache(object):
     def __contains__(self, filename):
         return filename in self._cache
             
-    def _cache_management(self):
+    def _cache_management(self, active=None):
         try:
             max_size = self.max_size()
         except TypeError:
@@ -407,6 +408,9 @@ class MemoryCache(object):
             filenames = list(self._cache.keys())
             sizes = [self._cache[filename].size/1024.**2 for filename in filenames]
             mtimes = [self._cache[filename]._mtime for filename in filenames]
+            if active is not None:
+                # The file that is being written to always counts as the most recent one
+                mtimes = [float('inf') if f == active else t for f,t in zip(filenames, mtimes)]
             
             # Delete until we mee the cache size limit or until there is only one
             # file left (the most recent one)
@@ -441,7 +445,7 @@ class MemoryCache(object):
         if mode.startswith('w'):
             fh.truncate(0)
         if mode.startswith('w') or mode.startswith('a'):
-            self._cache_management()
+            self._cache_management(filename)
             
         try:
             yield fh.open(mode=mode)
-- 
2.43.0


From ea857a2c45abc5649e6b49989bde1ec23f1e8cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:40 +0000
Subject: [PATCH 074/202] fix: reading a file that is not in a MemoryCache
 created it

---
 lsl/misc/file_cache.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 77ccc73..c295438 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -440,6 +440,9 @@ class MemoryCache(object):
         try:
             fh = self._cache[filename]
         except KeyError:
+            if mode.startswith('r'):
+                self._lock.release()
+                raise FileNotFoundError(f"No such file in the cache: '{filename}'")
             self._cache[filename] = MemoryFile(filename)
             fh = self._cache[filename]
         if mode.startswith('w'):
-- 
2.43.0


From e9bbc091dbd03055c508c1c51c2f459dceb4e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:55 +0000
Subject: [PATCH 075/202] fix: processes that create the configuration or cache
 directory at the same time took it for read-only

---
 lsl/config.py          | 6 +++++-
 lsl/misc/file_cache.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index 9a38c92..3ba746a 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -19,7 +19,11 @@ _CONFIG_DIR = os.getenv('LSLCONFIGDIR',
 # Create the .lsl directory and set the config filename
 try:
     if not os.path.exists(_CONFIG_DIR):
-        os.mkdir(_CONFIG_DIR)
+        try:
+            os.mkdir(_CONFIG_DIR)
+        except FileExistsError:
+            # Another process beat us to it
+            pass
     with FileLock(os.path.join(_CONFIG_DIR, 'write.test')):
         with open(os.path.join(_CONFIG_DIR, 'write.test'), 'w') as fh:
             fh.write('test')
diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index c295438..c602e64 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -45,7 +45,7 @@ class FileCache(object):
         
         for dir in needed:
             self.cache_dir = os.path.join(self.cache_dir, dir)
-            os.mkdir(self.cache_dir)
+            os.makedirs(self.cache_dir, exist_ok=True)
             
         # Make sure we can write here
         with self._lock:
-- 
2.43.0


From 70427aa9c26bdbcd237bae5ae9a2d6ef073832c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:55 +0000
Subject: [PATCH 076/202] fix: the configuration was lost if saving it was
 interrupted and empty if it was loaded at the same time

---
 lsl/config.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lsl/config.py b/lsl/config.py
index 3ba746a..2c073f4 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -335,8 +335,12 @@ class LSLConfigContainer(object):
                 with FileLock(self.filename) as lock:
                     assert(lock.locked())
                     
-                    with open(self.filename, 'w') as fh:
+                    # Write to a temporary file first so that there is always a
+                    # complete configuration file
+                    filename = os.path.realpath(self.filename)
+                    with open(filename+'.new', 'w') as fh:
                         fh.write(str(self))
+                    os.replace(filename+'.new', filename)
                     self._version_changed = False
                     self._param_changed = False
                     self._param_changed_list.clear()
-- 
2.43.0


From 1c13de5d6d07c018116929a9f67c3bb0066be53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:55 +0000
Subject: [PATCH 077/202] fix: clearing an optional parameter that has a
 default was not saved

---
 lsl/config.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index 2c073f4..c3acbf5 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -195,10 +195,14 @@ class LSLConfigParameter(object):
             output += "# %s\n" % tw_fill(self.help, subsequent_indent='# ')
             
         section, item = self.name.rsplit('.', 1)
-        if self.value is None:
+        try:
+            default = DEFAULTS_ALL[section][item]['value']
+        except KeyError:
+            default = None
+        if self.value is None and default is None:
             output += f"#{item} = \n"
         else:
-            output += f"{item} = {self.value}\n"
+            output += f"{item} = {'' if self.value is None else self.value}\n"
         return output
 
 
-- 
2.43.0


From 7f1e811803cc31dffbf4f684dc582f6b6c158116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:55 +0000
Subject: [PATCH 078/202] fix: a KeyError inside of a set_temp block was turned
 into an unknown parameter error

---
 lsl/config.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index c3acbf5..616d18e 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -420,21 +420,20 @@ class LSLConfigContainer(object):
         try:
             old_value = self._parameters[name].value
             is_optional = self._parameters[name].is_optional
-            
-            # Allow type changes only for optional parameters (those with None defaults)
-            # For non-optional parameters, enforce strict type checking
-            if type(value) != type(old_value) and not is_optional:
-                raise TypeError("Expected %s but found %s for '%s'" % (type(old_value).__name__,
-                                                                       type(value).__name__,
-                                                                       name))
-            self._parameters[name].value = value
-            try:
-                yield
-            finally:
-                self._parameters[name].value = old_value
-                
         except KeyError:
             raise ValueError(f"Unknown parameter '{name}'")
+            
+        # Allow type changes only for optional parameters (those with None defaults)
+        # For non-optional parameters, enforce strict type checking
+        if type(value) != type(old_value) and not is_optional:
+            raise TypeError("Expected %s but found %s for '%s'" % (type(old_value).__name__,
+                                                                   type(value).__name__,
+                                                                   name))
+        self._parameters[name].value = value
+        try:
+            yield
+        finally:
+            self._parameters[name].value = old_value
 
 
 class LSLConfigSubContainer(object):
-- 
2.43.0


From 2bc89781daf9ca59b52b2654036884ff9938baf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:55 +0000
Subject: [PATCH 079/202] fix: interrupted downloads were taken for complete
 and some download errors were not caught

---
 lsl/common/data_access.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index 3069976..0f4cd2b 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -142,14 +142,14 @@ def download_file(url, filename_or_fh, byte_range=None, verbose=True):
             if is_interactive:
                 sys.stdout.write(pbar.show()+'\n')
                 sys.stdout.flush()
-    except IOError as e:
+                
+            if received != remote_size:
+                raise IOError(f"expected {remote_size} B but received {received} B")
+    except Exception as e:
         if verbose:
             warnings.warn(colorfy("{{%%yellow Error downloading file from %s: %s}}" % (url, str(e))), RuntimeWarning)
-        received = 0
-    except (socket.timeout, TimeoutError):
-        received = 0
-    except HTTPError:
-        received = 0
+        remote_size = received = 0
+        mtime = 0.0
         
     if do_close:
         filename_or_fh.close()
-- 
2.43.0


From a868c470383bb93aa1064a35333202b2ea888dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:55 +0000
Subject: [PATCH 080/202] fix: data files left behind incomplete by a process
 that ended during a download were used

---
 lsl/common/data_access.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index 0f4cd2b..dd6a7ec 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -196,6 +196,9 @@ class _DataAccess(object):
         
         local_path = os.path.join(DATA_PATH, relative_url)
         
+        # Until the metadata is written the file is incomplete
+        self._data_cache.remove(metaname)
+        
         received = 0
         if os.path.exists(local_path):
             with open(local_path, 'rb') as uh:
@@ -248,6 +251,9 @@ class _DataAccess(object):
         if use_backup:
             url = self._BACKUP_URL+'/'+relative_url
             
+        # Until the metadata is written the file is incomplete
+        self._data_cache.remove(metaname)
+        
         mtime = 0
         with self._data_cache.open(filename, 'wb') as fh:
             remote_size, received, mtime = download_file(url, fh, verbose=verbose)
@@ -276,7 +282,7 @@ class _DataAccess(object):
         
         verbose = not filename.endswith('-ssmif.txt')
         
-        if filename not in self._data_cache:
+        if filename not in self._data_cache or filename+'_meta' not in self._data_cache:
             # No file, go get one.
             status = self._local_copy_worker(filename, filename, verbose=verbose)
             if not status:
-- 
2.43.0


From cbdcfd14b1f7f1e9754b6daa3e619be442c650cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:11 +0000
Subject: [PATCH 081/202] fix: a FileLock held by another process could be
 taken for our own if it had the same thread ID

---
 lsl/misc/file_lock.py | 48 ++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/lsl/misc/file_lock.py b/lsl/misc/file_lock.py
index d726655..b8ea753 100644
--- a/lsl/misc/file_lock.py
+++ b/lsl/misc/file_lock.py
@@ -74,38 +74,26 @@ class FileLock(object):
         while not self._locked:
             fh = None
             try:
-                # Open the lock file and try to read the thread ID of who owns
-                # it
+                # Open the lock file and try to claim an exclusive lock on it.
                 fh = open(self._lockname, 'a+')
-                try:
-                    owner_ident = int(fh.read(), 10)
-                except ValueError:
-                    owner_ident = 0
-                    
-                if ident != owner_ident:
-                    ## If we don't own it, try to claim an exclusive lock on it.
-                    fcntl.flock(fh, fcntl.LOCK_EX|fcntl.LOCK_NB)
+                fcntl.flock(fh, fcntl.LOCK_EX|fcntl.LOCK_NB)
+                
+                # Verify that the lock file and what we just opened are the
+                # the same file.  If not then give up.
+                fh_stat = os.fstat(fh.fileno())
+                lock_stat  = os.stat(fh.name)
+                if fh_stat.st_ino != lock_stat.st_ino:
+                    err = IOError()
+                    err.errno = errno.EAGAIN
+                    raise err
                     
-                    ## Verify that the lock file and what we just opened are the
-                    ## the same file.  If not then give up.
-                    fh_stat = os.fstat(fh.fileno())
-                    lock_stat  = os.stat(fh.name)
-                    if fh_stat.st_ino != lock_stat.st_ino:
-                        err = IOError()
-                        err.errno = errno.EAGAIN
-                        raise err
-                        
-                    ## Write our thread ID to the file and save the file handle
-                    ## to _our_lock so that we know that we need to clean things
-                    ## up when we are done.
-                    fh.truncate(0)
-                    fh.write("%i" % ident)
-                    fh.flush()
-                    self._our_lock = fh
-                else:
-                    ## If we do already own it then there is nothing else to do.
-                    fh.close()
-                    self._our_lock = None
+                # Write our thread ID to the file and save the file handle to
+                # _our_lock so that we know that we need to clean things up when
+                # we are done.
+                fh.truncate(0)
+                fh.write("%i" % ident)
+                fh.flush()
+                self._our_lock = fh
                 self._locked = True
                 
             except IOError as e:
-- 
2.43.0


From 249d39d32546e033153d3b5615622ce4750bc616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:03 +0000
Subject: [PATCH 082/202] fix: a compressed download that ends early was taken
 for complete

---
 lsl/common/data_access.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index dd6a7ec..5847e57 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -145,6 +145,8 @@ def download_file(url, filename_or_fh, byte_range=None, verbose=True):
                 
             if received != remote_size:
                 raise IOError(f"expected {remote_size} B but received {received} B")
+            if is_gzip and not decomp.eof:
+                raise IOError("compressed data ended early")
     except Exception as e:
         if verbose:
             warnings.warn(colorfy("{{%%yellow Error downloading file from %s: %s}}" % (url, str(e))), RuntimeWarning)
-- 
2.43.0


From b7bbcd286750d8f6fc1363dc9d1e1a102cc28f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:30 +0000
Subject: [PATCH 083/202] fix: visibilities were stored under the wrong
 baselines when the baselines changed between data sets

---
 lsl/writer/fitsidi.py        | 7 +++----
 lsl/writer/measurementset.py | 9 ++++-----
 lsl/writer/uvfits.py         | 7 +++----
 3 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index 8567fe2..70c105e 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -1052,6 +1052,7 @@ class Idi(WriterBase):
         blineList = []
         nameList = []
         sourceList = []
+        lastBaselines = None
         while True:
             # Get the next data set to process
             try:
@@ -1060,11 +1061,9 @@ class Idi(WriterBase):
                 break
                 
             # Sort the data by packed baseline
-            try:
-                if len(dataSet.visibilities) != len(order):
-                    raise NameError
-            except NameError:
+            if dataSet.baselines is not lastBaselines:
                 order = dataSet.argsort(mapper=mapper, shift=self._PACKING_BIT_SHIFT)
+                lastBaselines = dataSet.baselines
                 try:
                     del baselineMapped
                 except NameError:
diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index 55ac5d1..ed40e5c 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -796,15 +796,14 @@ try:
             i = 0
             s = 1
             _sourceTable = []
+            lastBaselines = None
             for dataSet in self.data:
                 # Sort the data by packed baseline
-                try:
-                    if len(dataSet.visibilities) != len(order):
-                        raise NameError
-                except NameError:
+                if dataSet.baselines is not lastBaselines:
                     order = dataSet.argsort(mapper=mapper, shift=16)
+                    lastBaselines = dataSet.baselines
                     try:
-                        del baselineMapped
+                        del ant1List, ant2List
                     except NameError:
                         pass
                         
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index e9dc125..34ce519 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -255,13 +255,12 @@ class Uv(WriterBase):
         blineList = []
         nameList = []
         sourceList = []
+        lastBaselines = None
         for dataSet in self.data:
             # Sort the data by packed baseline
-            try:
-                if len(dataSet.visibilities) != len(order):
-                    raise NameError
-            except NameError:
+            if dataSet.baselines is not lastBaselines:
                 order = dataSet.argsort(mapper=mapper)
+                lastBaselines = dataSet.baselines
                 try:
                     del baselineMapped
                 except NameError:
-- 
2.43.0


From de31a1952bd78e948b174ab4cf6354b9342312a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:07 +0000
Subject: [PATCH 084/202] fix: stand numbers of 1000 and up were cut to three
 digits when reading visibility files

---
 lsl/imaging/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index e0eadee..0266e63 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -84,7 +84,7 @@ vLight = vLight.to('m/s').value
 
 # Regular expression for trying to get the stand number out of an antenna
 # name
-_annameRE = re.compile(r'^.*?(?P<id>\d{1,3})$')
+_annameRE = re.compile(r'^.*?(?P<id>\d+)$')
 
 
 def CorrelatedData(filename):
-- 
2.43.0


From 7e35e98f70ed0a81c55faf1a49697aef9f409328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:07 +0000
Subject: [PATCH 085/202] fix: antenna positions in measurement sets had the
 array center added a second time

---
 lsl/writer/measurementset.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index ed40e5c..2a597be 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -286,9 +286,7 @@ try:
             
             for i,ant in enumerate(self.array[0]['ants']):
                 #tb.putcell('OFFSET', i, [0.0, 0.0, 0.0])
-                tb.putcell('POSITION', i, [ant.x + self.array[0]['center'][0],
-                                           ant.y + self.array[0]['center'][1], 
-                                           ant.z + self.array[0]['center'][2]])
+                tb.putcell('POSITION', i, [ant.x, ant.y, ant.z])
                 #tb.putcell('TYPE', i, 'GROUND-BASED')
                 #tb.putcell('DISH_DIAMETER', i, 2.0)
                 #tb.putcell('FLAG_ROW', i, False)
-- 
2.43.0


From e6a9256171c063363a2be9ffbeb2e18dc9fa62a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:07 +0000
Subject: [PATCH 086/202] fix: measurement sets with more than two spectral
 windows could not be read

---
 lsl/imaging/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 0266e63..2b91e68 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1101,7 +1101,7 @@ try:
                     baselines.append( (a1,a2) )
                     select.append( b )
                 if len(self._windows) > 1:
-                    baselines = baselines[:len(baselines)//2]
+                    baselines = baselines[:len(baselines)//len(self._windows)]
                     selectU = select[:len(baselines)]
                 else:
                     selectU = select
-- 
2.43.0


From 534996873c3f6d98eb5bda46cd50523ce61ba098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:07 +0000
Subject: [PATCH 087/202] fix: VirtualWriter computed (u,v,w) with the hour
 angle in degrees instead of hours

---
 lsl/writer/virtual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/writer/virtual.py b/lsl/writer/virtual.py
index c9a65ba..7164345 100644
--- a/lsl/writer/virtual.py
+++ b/lsl/writer/virtual.py
@@ -109,7 +109,7 @@ class VirtualWriter(WriterBase):
             
         # Phase center coordinates
         it = equ.transform_to(ITRS(location=self.el, obstime=date))
-        HA = ((self.el.lon - it.spherical.lon).wrap_at('180deg')).deg
+        HA = ((self.el.lon - it.spherical.lon).wrap_at('180deg')).hourangle
         dec = it.spherical.lat.deg
         
         # (u,v,w) coordinates
-- 
2.43.0


From c205f5e8cfee166ee4a10146078e80d546e3a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:02 +0000
Subject: [PATCH 088/202] fix: (u,v,w) coordinates took J2000 source positions
 for positions of date

---
 lsl/writer/fitsidi.py        | 28 +++++++++++++++++++++++++---
 lsl/writer/measurementset.py |  6 +++---
 lsl/writer/uvfits.py         |  6 +++---
 lsl/writer/virtual.py        |  3 +--
 4 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index 70c105e..9a8d2f8 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -178,6 +178,28 @@ class WriterBase(object):
             
             return np.argsort(packed)
             
+    @staticmethod
+    def _get_source_position(source, date):
+        """
+        Given an ephem.Body instance that has already been computed for the
+        specified date, return its position as an astropy FK5 instance with 
+        an equinox of that date.
+        """
+        
+        try:
+            ## Fixed sources - the epoch of a_ra and a_dec depends on the observer
+            ## that was used so go back to the catalog position
+            epoch = AstroTime(float(source._epoch) + astro.DJD_OFFSET, format='jd', scale='tt')
+            equ = FK5(source._ra*astrounits.rad, source._dec*astrounits.rad,
+                      equinox=epoch)
+            equ = equ.transform_to(FK5(equinox=date))
+        except AttributeError:
+            ## Everything else
+            equ = FK5(source.ra*astrounits.rad, source.dec*astrounits.rad,
+                      equinox=date)
+            
+        return equ
+        
     @staticmethod
     def parse_time(ref_time):
         """
@@ -910,7 +932,8 @@ class Idi(WriterBase):
                         ## Real-live sources (ephem.Body instances)
                         name = dataSet.source.name
                         equ = astro.equ_posn(dataSet.source.ra*180/np.pi, dataSet.source.dec*180/np.pi)
-                        equPo = astro.equ_posn(dataSet.source.a_ra*180/np.pi, dataSet.source.a_dec*180/np.pi)
+                        equPo = self._get_source_position(dataSet.source, date).transform_to(FK5(equinox='J2000'))
+                        equPo = astro.equ_posn.from_astropy(equPo)
                         
                     # current apparent zenith equatorial coordinates
                     raList.append(equ.ra)
@@ -1095,8 +1118,7 @@ class Idi(WriterBase):
                     name = "ZA%02d%02d%02d%01d" % (raHms.hours, raHms.minutes, int(secs), int(tsecs * 10.0))
                 else:
                     ### Real-live sources (ephem.Body instances)
-                    equ = FK5(dataSet.source.a_ra*astrounits.rad, dataSet.source.a_dec*astrounits.rad,
-                              equinox=date)
+                    equ = self._get_source_position(dataSet.source, date)
                     
                     name = dataSet.source.name
                     
diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index 2a597be..b52042c 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -506,7 +506,8 @@ try:
                             ## Real-live sources (ephem.Body instances)
                             name = dataSet.source.name
                             equ = astro.equ_posn(dataSet.source.ra*180/np.pi, dataSet.source.dec*180/np.pi)
-                            equPo = astro.equ_posn(dataSet.source.a_ra*180/np.pi, dataSet.source.a_dec*180/np.pi)
+                            equPo = self._get_source_position(dataSet.source, date).transform_to(FK5(equinox='J2000'))
+                            equPo = astro.equ_posn.from_astropy(equPo)
                             
                         # J2000 zenith equatorial coordinates
                         posList.append( [[equPo.ra*np.pi/180, equPo.dec*np.pi/180],] )
@@ -826,8 +827,7 @@ try:
                         name = "ZA%02d%02d%02d%01d" % (raHms.hours, raHms.minutes, int(secs), int(tsecs * 10.0))
                     else:
                         ### Real-live sources (ephem.Body instances)
-                        equ = FK5(dataSet.source.a_ra*astrounits.rad, dataSet.source.a_dec*astrounits.rad,
-                                  equinox=date)
+                        equ = self._get_source_position(dataSet.source, date)
                         
                         name = dataSet.source.name
                         
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index 34ce519..7b243bc 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -291,8 +291,7 @@ class Uv(WriterBase):
                     name = "ZA%02d%02d%02d%01d" % (raHms.hours, raHms.minutes, int(secs), int(tsecs * 10.0))
                 else:
                     ### Real-live sources (ephem.Body instances)
-                    equ = FK5(dataSet.source.a_ra*astrounits.rad, dataSet.source.a_dec*astrounits.rad,
-                              equinox=date)
+                    equ = self._get_source_position(dataSet.source, date)
                     
                     name = dataSet.source.name
                     
@@ -713,7 +712,8 @@ class Uv(WriterBase):
                         ## Real-live sources (ephem.Body instances)
                         name = dataSet.source.name
                         equ = astro.equ_posn(dataSet.source.ra*180/np.pi, dataSet.source.dec*180/np.pi)
-                        equPo = astro.equ_posn(dataSet.source.a_ra*180/np.pi, dataSet.source.a_dec*180/np.pi)
+                        equPo = self._get_source_position(dataSet.source, date).transform_to(FK5(equinox='J2000'))
+                        equPo = astro.equ_posn.from_astropy(equPo)
                         
                     # current apparent zenith equatorial coordinates
                     raList.append(equ.ra)
diff --git a/lsl/writer/virtual.py b/lsl/writer/virtual.py
index 7164345..16a2f9f 100644
--- a/lsl/writer/virtual.py
+++ b/lsl/writer/virtual.py
@@ -104,8 +104,7 @@ class VirtualWriter(WriterBase):
             tc = AltAz('0deg', '90deg', location=self.el, obstime=date)
             equ = tc.transform_to(FK5(equinox=date))
         else:
-            equ = FK5(source.a_ra*astrounits.rad, source.a_dec*astrounits.rad,
-                      equinox=date)
+            equ = self._get_source_position(source, date)
             
         # Phase center coordinates
         it = equ.transform_to(ITRS(location=self.el, obstime=date))
-- 
2.43.0


From 4f3879cce6ef87e77b4b840e75de17568b97496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:02 +0000
Subject: [PATCH 089/202] fix: visibility data sets with polarization codes
 that are not consecutive were written with the wrong polarization labels

---
 lsl/writer/fitsidi.py | 24 ++++++++++++++++++++----
 lsl/writer/uvfits.py  |  5 +----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index 9a8d2f8..e9674b2 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -178,6 +178,25 @@ class WriterBase(object):
             
             return np.argsort(packed)
             
+    def _get_stokes_step(self):
+        """
+        Return the step between the polarization codes for use with a regular FITS
+        axis.  If the polarizations do not form a regular axis a RuntimeError is
+        raised.
+        """
+        
+        steps = set([p1-p0 for p0,p1 in zip(self.stokes[:-1], self.stokes[1:])])
+        if len(steps) > 1:
+            raise RuntimeError(f"The polarizations do not form a regular axis: {self.stokes}")
+        elif len(steps) == 1:
+            step = steps.pop()
+        elif self.stokes[0] < 0:
+            step = -1
+        else:
+            step = 1
+            
+        return float(step)
+        
     @staticmethod
     def _get_source_position(source, date):
         """
@@ -1247,10 +1266,7 @@ class Idi(WriterBase):
         
         uv.header['MAXIS2'] = (self.nStokes, 'number of pixels in STOKES axis')
         uv.header['CTYPE2'] = ('STOKES', 'axis 2 is STOKES axis (polarization)')
-        if self.stokes[0] < 0:
-            uv.header['CDELT2'] = -1.0
-        else:
-            uv.header['CDELT2'] = 1.0
+        uv.header['CDELT2'] = self._get_stokes_step()
         uv.header['CRPIX2'] = 1.0
         uv.header['CRVAL2'] = float(self.stokes[0])
         
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index 7b243bc..8e85494 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -391,10 +391,7 @@ class Uv(WriterBase):
         primary.header['CRVAL2'] = 1.0
         
         primary.header['CTYPE3'] = ('STOKES', 'axis 3 is STOKES axis (polarization)')
-        if self.stokes[0] < 0:
-            primary.header['CDELT3'] = -1.0
-        else:
-            primary.header['CDELT3'] = 1.0
+        primary.header['CDELT3'] = self._get_stokes_step()
         primary.header['CRPIX3'] = 1.0
         primary.header['CRVAL3'] = float(self.stokes[0])
         
-- 
2.43.0


From 37e0bbfc2e754fd763ae25d63f55d87e3d002823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:02 +0000
Subject: [PATCH 090/202] fix: measurement sets with only a few antennas could
 not be read

---
 lsl/imaging/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 2b91e68..8cd0d08 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -933,9 +933,15 @@ try:
                 elv = np.append(elv, el)
                 
             ## Estimate the center of the station
-            sLat = robust.mean(lat)
-            sLng = robust.mean(lng)
-            sElv = robust.mean(elv)
+            try:
+                sLat = robust.mean(lat)
+                sLng = robust.mean(lng)
+                sElv = robust.mean(elv)
+            except ValueError:
+                ### Catch for when there are only a few antennas
+                sLat = np.median(lat)
+                sLng = np.median(lng)
+                sElv = np.median(elv)
             
             ## Build a preliminayr represenation of the station
             self.station = stations.LWAStation(ants.col('STATION')[0], sLat, sLng, sElv)
-- 
2.43.0


From 272cc17bb4ddf0d84315ce7cd437ea3253ea6aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:56 +0000
Subject: [PATCH 091/202] fix: visibilities were stored under the wrong
 baselines when the baselines changed between data sets (measurement sets)

---
 lsl/writer/measurementset.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index b52042c..c5c4789 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -796,16 +796,13 @@ try:
             s = 1
             _sourceTable = []
             lastBaselines = None
+            antBaselines = None
             for dataSet in self.data:
                 # Sort the data by packed baseline
                 if dataSet.baselines is not lastBaselines:
                     order = dataSet.argsort(mapper=mapper, shift=16)
                     lastBaselines = dataSet.baselines
-                    try:
-                        del ant1List, ant2List
-                    except NameError:
-                        pass
-                        
+                    
                 # Deal with defininig the values of the new data set
                 if dataSet.pol == self.stokes[0]:
                     ## Figure out the new date/time for the observation
@@ -846,10 +843,7 @@ try:
                     
                     ## Populate the metadata
                     ### Add in the baselines
-                    try:
-                        ant1List
-                        ant2List
-                    except NameError:
+                    if dataSet.baselines is not antBaselines:
                         a1List, a2List = [], []
                         for o in order:
                             antenna1, antenna2 = dataSet.baselines[o]
@@ -859,6 +853,7 @@ try:
                             a2List.append( a2 )
                         ant1List = a1List
                         ant2List = a2List
+                        antBaselines = dataSet.baselines
                         
                     ### Add in the new u, v, and w coordinates
                     uvwList = uvwCoords[order,:]
-- 
2.43.0


From 08ecbc99f17b5487162783df30cc74ce40aff63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:01 +0000
Subject: [PATCH 092/202] fix: the dates in UVFITS files were left
 uninitialized

---
 lsl/writer/uvfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index 8e85494..781cc53 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -364,9 +364,12 @@ class Uv(WriterBase):
                                           np.array(blineList), np.array(sourceList), 
                                           np.array(intTimeList)], 
                                  parbscales=[1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0], 
-                                 parbzeros=[0.0, 0.0, 0.0, utcR, 0.0, 0.0, 0.0, 0.0], 
+                                 parbzeros=[0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0], 
                                  bitpix=-32)
         primary = astrofits.GroupsHDU(uv)
+        # NOTE:  The date offset is set here since astropy does not fill in the values
+        #        of parameters that have an offset
+        primary.header['PZERO4'] = utcR
         
         primary.header['EXTEND'] = (True, 'indicates UVFITS file')
         primary.header['GROUPS'] = (True, 'indicates UVFITS file')
-- 
2.43.0


From a35bbb24d3c825763e588b5b81c1f21b894716b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:07 +0000
Subject: [PATCH 093/202] fix: TBX and COR readers in different threads shared
 the size of the next read

---
 lsl/reader/cor.cpp | 14 +++-----------
 lsl/reader/tbx.cpp | 10 +++-------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/lsl/reader/cor.cpp b/lsl/reader/cor.cpp
index 1dcdd3a..eda628e 100644
--- a/lsl/reader/cor.cpp
+++ b/lsl/reader/cor.cpp
@@ -50,7 +50,6 @@ typedef struct __attribute__((packed)) {
 static int cached_nchan = 192;
 
 PyObject *cor_method = NULL;
-PyObject *cor_size   = NULL;
 
 
 template<int NCHAN>
@@ -83,10 +82,9 @@ PyObject *read_cor_impl(PyObject *self, PyObject *args) {
     if( cor_method == NULL ) {
         cor_method = Py_BuildValue("s", "read");
     }
-    if( cor_size == NULL ) {
-        cor_size = Py_BuildValue("i", frameSize);
-    }
-    buffer = PyObject_CallMethodObjArgs(ph, cor_method, cor_size, NULL);
+    temp = Py_BuildValue("i", frameSize);
+    buffer = PyObject_CallMethodObjArgs(ph, cor_method, temp, NULL);
+    Py_XDECREF(temp);
     if( buffer == NULL ) {
         if( PyObject_HasAttrString(ph, "read") ) {
             PyErr_Format(PyExc_IOError, "An error occured while reading from the file");
@@ -118,8 +116,6 @@ PyObject *read_cor_impl(PyObject *self, PyObject *args) {
     // If nchan is not what we expect, update the cache and retry with correct size
     if( nchan != NCHAN ) {
         cached_nchan = nchan;   // Update for next time
-        Py_XDECREF(cor_size);   // Update for next time
-        cor_size = NULL;        // Force NULL since Py_XDECREF isn't guaranteed to change cor_size
         Py_XDECREF(data);
         buffer = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
         if( buffer == NULL ) {
@@ -173,8 +169,6 @@ PyObject *read_cor_impl(PyObject *self, PyObject *args) {
     // Validate
     if( !validSync5C(cFrame.header.sync_word) ) {
         cached_nchan = 192;   // Update for next time
-        Py_XDECREF(cor_size);   // Update for next time
-        cor_size = NULL;
         buffer = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
         PyErr_Format(SyncError, "Mark 5C sync word differs from expected");
         Py_XDECREF(buffer);
@@ -304,8 +298,6 @@ PyObject *read_cor(PyObject *self, PyObject *args) {
     }
     if( nchan != cached_nchan ) {
         cached_nchan = nchan;
-        Py_XDECREF(cor_size);
-        cor_size = NULL;
     }
     
     // Use the right size
diff --git a/lsl/reader/tbx.cpp b/lsl/reader/tbx.cpp
index 9f36986..941f7ba 100644
--- a/lsl/reader/tbx.cpp
+++ b/lsl/reader/tbx.cpp
@@ -47,7 +47,6 @@ static int cached_nstand = 256;
 static int cached_nchan = 16;
 
 PyObject *tbx_method = NULL;
-PyObject *tbx_size = NULL;
 
 template<int NSTAND, int NCHAN, typename T, NPY_TYPES N>
 PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
@@ -67,10 +66,9 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     if( tbx_method == NULL ) {
         tbx_method = Py_BuildValue("s", "read");
     }
-    if( tbx_size == NULL ) {
-        tbx_size = Py_BuildValue("i", frameSize);
-    }
-    buffer = PyObject_CallMethodObjArgs(ph, tbx_method, tbx_size, NULL);
+    temp = Py_BuildValue("i", frameSize);
+    buffer = PyObject_CallMethodObjArgs(ph, tbx_method, temp, NULL);
+    Py_XDECREF(temp);
     if( buffer == NULL ) {
         if( PyObject_HasAttrString(ph, "read") ) {
             PyErr_Format(PyExc_IOError, "An error occured while reading from the file");
@@ -103,8 +101,6 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     if( nstand != NSTAND || nchan != NCHAN ) {
         cached_nstand = nstand; // Update for next time
         cached_nchan = nchan;
-        Py_XDECREF(tbx_size);   // Update for next time
-        tbx_size = NULL;        // Force NULL since Py_XDECREF isn't guaranteed to change tbx_size
         buffer = PyObject_CallMethod(ph, "seek", "ii", -nread, 1);
         if( buffer == NULL ) {
             return NULL;
-- 
2.43.0


From 49d361821702a0576de77c9bf6b87c9fa2eb2b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:07 +0000
Subject: [PATCH 094/202] fix: int8 data with an odd last axis were taken for
 complex integers and overrun

---
 lsl/correlator/common.hpp | 11 +++++++++++
 lsl/correlator/core.cpp   | 24 ++++++++++++++++++++++--
 lsl/correlator/spec.cpp   |  4 ++--
 lsl/correlator/stokes.cpp |  8 ++++----
 lsl/misc/beamformer.cpp   |  4 ++++
 5 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/lsl/correlator/common.hpp b/lsl/correlator/common.hpp
index 2f79b33..30cec27 100644
--- a/lsl/correlator/common.hpp
+++ b/lsl/correlator/common.hpp
@@ -63,6 +63,17 @@ inline void read_wisdom(char *filename, PyObject *m) {
                                        ? LSL_CI8 : PyArray_TYPE(arr))
 
 
+/*
+ Check that an array has the right number of dimensions, i.e., minDim or minDim 
+ plus a final axis of length two for our ci8 data format
+*/
+
+#define PyArray_LSL_NDIM_OK(arr, minDim) ((PyArray_NDIM(arr) == minDim) \
+                                          || ((PyArray_TYPE(arr) == NPY_INT8) \
+                                              && (PyArray_NDIM(arr) == (minDim+1)) \
+                                              && (PyArray_DIM(arr, minDim) == 2)))
+
+
 /*
   Warp the Numpy PyArray_DATA macro so that it can deal with NULL values.
 */
diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index e0df51d..8b45d41 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -407,7 +407,7 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     nStand = (long) PyArray_DIM(data, 0);
     nSamps = (long) PyArray_DIM(data, 1);
     isReal = 1 - PyArray_LSL_ISCOMPLEX(data, 2);
-    if( PyArray_NDIM(data) == 3 && PyArray_TYPE(data) != NPY_INT8 ) {
+    if( !PyArray_LSL_NDIM_OK(data, 2) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signals array as a 2-D array");
         goto fail;
     }
@@ -614,7 +614,7 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     nStand = (long) PyArray_DIM(data, 0);
     nSamps = (long) PyArray_DIM(data, 1);
     isReal = 1 - PyArray_LSL_ISCOMPLEX(data, 2);
-    if( PyArray_NDIM(data) == 3 && PyArray_TYPE(data) != NPY_INT8 ) {
+    if( !PyArray_LSL_NDIM_OK(data, 2) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signals array as a 2-D array");
         goto fail;
     }
@@ -937,6 +937,16 @@ static PyObject *XEngine2(PyObject *self, PyObject *args) {
     if( PyArray_DIM(data2, 0) != nStand || PyArray_DIM(data2, 1) != nChan || PyArray_DIM(data2, 2) != nFFT ) {
         PyErr_Format(PyExc_RuntimeError, "signals1 and signals2 have different dimensions");
         goto fail;
+    // Make sure that we actually have 3-D data
+    if( !PyArray_LSL_NDIM_OK(data1, 3) ) {
+        PyErr_Format(PyExc_RuntimeError, "Cannot cast input signals1 array as a 3-D array");
+        goto fail;
+    }
+    if( !PyArray_LSL_NDIM_OK(data2, 3) || PyArray_NDIM(data2) != PyArray_NDIM(data1) ) {
+        PyErr_Format(PyExc_RuntimeError, "Cannot cast input signals2 array as a 3-D array");
+        goto fail;
+    }
+
     }
     if( PyArray_DIM(valid1, 0) != nStand || PyArray_DIM(valid1, 1) != nFFT ) {
         PyErr_Format(PyExc_RuntimeError, "sigValid1 dimensions do not match signals1");
@@ -1063,6 +1073,16 @@ static PyObject *XEngine3(PyObject *self, PyObject *args) {
     if( PyArray_DIM(dataY, 0) != nStand || PyArray_DIM(dataY, 1) != nChan || PyArray_DIM(dataY, 2) != nFFT ) {
         PyErr_Format(PyExc_RuntimeError, "signalsX and signalsY have different dimensions");
         goto fail;
+    // Make sure that we actually have 3-D data
+    if( !PyArray_LSL_NDIM_OK(dataX, 3) ) {
+        PyErr_Format(PyExc_RuntimeError, "Cannot cast input signalsX array as a 3-D array");
+        goto fail;
+    }
+    if( !PyArray_LSL_NDIM_OK(dataY, 3) || PyArray_NDIM(dataY) != PyArray_NDIM(dataX) ) {
+        PyErr_Format(PyExc_RuntimeError, "Cannot cast input signalsY array as a 3-D array");
+        goto fail;
+    }
+
     }
     if( PyArray_DIM(validX, 0) != nStand || PyArray_DIM(validX, 1) != nFFT ) {
         PyErr_Format(PyExc_RuntimeError, "sigValidX dimensions do not match signalsX");
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index 88ef58a..be8ffc2 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -286,7 +286,7 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     nStand = (long) PyArray_DIM(data, 0);
     nSamps = (long) PyArray_DIM(data, 1);
     isReal = 1 - PyArray_LSL_ISCOMPLEX(data, 2);
-    if( PyArray_NDIM(data) == 3 && PyArray_TYPE(data) != NPY_INT8 ) {
+    if( !PyArray_LSL_NDIM_OK(data, 2) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signals array as a 2-D array");
         goto fail;
     }
@@ -417,7 +417,7 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     nStand = (long) PyArray_DIM(data, 0);
     nSamps = (long) PyArray_DIM(data, 1);
     isReal = 1 - PyArray_LSL_ISCOMPLEX(data, 2);
-    if( PyArray_NDIM(data) == 3 && PyArray_TYPE(data) != NPY_INT8 ) {
+    if( !PyArray_LSL_NDIM_OK(data, 2) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signals array as a 2-D array");
         goto fail;
     }
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index f27dce0..721c1e8 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -353,11 +353,11 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     nStand = (long) PyArray_DIM(dataX, 0);
     nSamps = (long) PyArray_DIM(dataX, 1);
     isReal = 1 - PyArray_LSL_ISCOMPLEX(dataX, 2);
-    if( PyArray_NDIM(dataX) == 3 && PyArray_TYPE(dataX) != NPY_INT8 ) {
+    if( !PyArray_LSL_NDIM_OK(dataX, 2) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signalsX array as a 2-D array");
         goto fail;
     }
-    if( PyArray_NDIM(dataY) == 3 && PyArray_TYPE(dataY) != NPY_INT8 ) {
+    if( !PyArray_LSL_NDIM_OK(dataY, 2) || PyArray_NDIM(dataY) != PyArray_NDIM(dataX) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signalsY array as a 2-D array");
         goto fail;
     }
@@ -512,11 +512,11 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     nStand = (long) PyArray_DIM(dataX, 0);
     nSamps = (long) PyArray_DIM(dataX, 1);
     isReal = 1 - PyArray_LSL_ISCOMPLEX(dataX, 2);
-    if( PyArray_NDIM(dataX) == 3 && PyArray_TYPE(dataX) != NPY_INT8 ) {
+    if( !PyArray_LSL_NDIM_OK(dataX, 2) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signalsX array as a 2-D array");
         goto fail;
     }
-    if( PyArray_NDIM(dataY) == 3 && PyArray_TYPE(dataY) != NPY_INT8 ) {
+    if( !PyArray_LSL_NDIM_OK(dataY, 2) || PyArray_NDIM(dataY) != PyArray_NDIM(dataX) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signalsY array as a 2-D array");
         goto fail;
     }
diff --git a/lsl/misc/beamformer.cpp b/lsl/misc/beamformer.cpp
index 95b9027..7148b25 100644
--- a/lsl/misc/beamformer.cpp
+++ b/lsl/misc/beamformer.cpp
@@ -219,6 +219,10 @@ static PyObject *BEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Check data dimensions
+    if( !PyArray_LSL_NDIM_OK(data, 3) ) {
+        PyErr_Format(PyExc_RuntimeError, "Cannot cast input signals array as a 3-D array");
+        goto fail;
+    }
     if(PyArray_DIM(cdata, 0) != PyArray_DIM(data, 0)) {
         PyErr_Format(PyExc_RuntimeError, "coeff and signals have different stand counts");
         goto fail;
-- 
2.43.0


From d6c94d87cdc60fb1d25bb9741f3b15e4df92f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:07 +0000
Subject: [PATCH 095/202] fix: delays too large for a sample count overran the
 F engines' input

---
 lsl/correlator/core.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index 8b45d41..ad48d27 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -21,14 +21,9 @@
 
 
 /*
-Holder for window function callback
-*/
-
-static PyObject *windowFunc = NULL;
-
-
-/*
-Function to compute the interger and fractional delays for a set of inputs
+Function to compute the interger and fractional delays for a set of inputs.
+Returns the largest integer delay or -1 if any of the delays cannot be 
+expressed as a number of samples.
 */
 
 long compute_delay_components(long nStand, 
@@ -58,6 +53,9 @@ long compute_delay_components(long nStand,
     // Compute the FIFO and fractional delays
     fifoMax = 0.0;
     for(i=0; i<nStand; i++) {
+        if( !(fabs((*(delay + nChan*i + nChan/2) - minDelay) * SampleRate) < 1e15) ) {
+            return -1;
+        }
         *(fifo + i) = lround( (*(delay + nChan*i + nChan/2) - minDelay) * SampleRate );
         if( *(fifo + i) > fifoMax) {
             fifoMax = *(fifo + i);
@@ -428,6 +426,12 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     if( fifo == NULL || frac == NULL ) {
         PyErr_Format(PyExc_MemoryError, "Cannot create fifo/fractional delay arrays");
         goto fail;
+    if( fifoMax < 0 ) {
+        PyErr_Format(PyExc_ValueError, "delays cannot be expressed as a number of samples");
+        aligned64_free(fifo);
+        aligned64_free(frac);
+        goto fail;
+    }
     }
     fifoMax = compute_delay_components(nStand, nChan, SampleRate, \
                                        (double*) PyArray_DATA(delay), fifo, frac);
@@ -631,6 +635,12 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     double *frac;
     fifo = (long *) aligned64_malloc(nStand*sizeof(long));
     frac = (double *) aligned64_malloc(nStand*nChan*sizeof(double));
+    if( fifoMax < 0 ) {
+        PyErr_Format(PyExc_ValueError, "delays cannot be expressed as a number of samples");
+        aligned64_free(fifo);
+        aligned64_free(frac);
+        goto fail;
+    }
     if( fifo == NULL || frac == NULL ) {
         PyErr_Format(PyExc_MemoryError, "Cannot create fifo/fractional delay arrays");
         goto fail;
-- 
2.43.0


From 398c3d88ca0d7773d20d4aed78c0c595ff1f9e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:07 +0000
Subject: [PATCH 096/202] fix: the window function of a call was taken by
 another thread's call

---
 lsl/correlator/core.cpp   | 44 +++++++++++++++++----------------------
 lsl/correlator/spec.cpp   | 17 ++-------------
 lsl/correlator/stokes.cpp | 17 ++-------------
 3 files changed, 23 insertions(+), 55 deletions(-)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index ad48d27..0c5f6bc 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -361,9 +361,6 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_ValueError, "LFFT and overlap must be positive");
             goto fail;
         }
-        Py_XINCREF(window);
-        Py_XDECREF(windowFunc);
-        windowFunc = window;
     }
 
     // Bring the data into C and make it usable
@@ -411,8 +408,8 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Calculate the windowing function
-    if( windowFunc != Py_None ) {
-        windowData = compute_window(windowFunc, (1+isReal)*nChan);
+    if( window != Py_None ) {
+        windowData = compute_window(window, (1+isReal)*nChan);
         if( windowData == NULL ) {
             goto fail;
         }
@@ -426,15 +423,15 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     if( fifo == NULL || frac == NULL ) {
         PyErr_Format(PyExc_MemoryError, "Cannot create fifo/fractional delay arrays");
         goto fail;
+    }
+    fifoMax = compute_delay_components(nStand, nChan, SampleRate, \
+                                       (double*) PyArray_DATA(delay), fifo, frac);
     if( fifoMax < 0 ) {
         PyErr_Format(PyExc_ValueError, "delays cannot be expressed as a number of samples");
         aligned64_free(fifo);
         aligned64_free(frac);
         goto fail;
     }
-    }
-    fifoMax = compute_delay_components(nStand, nChan, SampleRate, \
-                                       (double*) PyArray_DATA(delay), fifo, frac);
     
     // Find out how large the output array needs to be and initialize it
     nFFT = compute_fft_count(nSamps - fifoMax, (1+isReal)*nChan, Overlap);
@@ -574,9 +571,6 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_ValueError, "LFFT and overlap must be positive");
             goto fail;
         }
-        Py_XINCREF(window);
-        Py_XDECREF(windowFunc);
-        windowFunc = window;
     }
 
     // Bring the data into C and make it usable
@@ -635,18 +629,18 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     double *frac;
     fifo = (long *) aligned64_malloc(nStand*sizeof(long));
     frac = (double *) aligned64_malloc(nStand*nChan*sizeof(double));
-    if( fifoMax < 0 ) {
-        PyErr_Format(PyExc_ValueError, "delays cannot be expressed as a number of samples");
-        aligned64_free(fifo);
-        aligned64_free(frac);
-        goto fail;
-    }
     if( fifo == NULL || frac == NULL ) {
         PyErr_Format(PyExc_MemoryError, "Cannot create fifo/fractional delay arrays");
         goto fail;
     }
     fifoMax = compute_delay_components(nStand, nChan, SampleRate, \
                                        (double*) PyArray_DATA(delay), fifo, frac);
+    if( fifoMax < 0 ) {
+        PyErr_Format(PyExc_ValueError, "delays cannot be expressed as a number of samples");
+        aligned64_free(fifo);
+        aligned64_free(frac);
+        goto fail;
+    }
     
     // Find out how large the output array needs to be and initialize it
     nFFT = compute_fft_count(nSamps - fifoMax, (1+isReal)*nChan, Overlap);
@@ -943,10 +937,6 @@ static PyObject *XEngine2(PyObject *self, PyObject *args) {
     nFFT = (long) PyArray_DIM(data1, 2);
     nBL = (nStand+1)*nStand/2;
 
-    // Validate the other input arrays against signals1
-    if( PyArray_DIM(data2, 0) != nStand || PyArray_DIM(data2, 1) != nChan || PyArray_DIM(data2, 2) != nFFT ) {
-        PyErr_Format(PyExc_RuntimeError, "signals1 and signals2 have different dimensions");
-        goto fail;
     // Make sure that we actually have 3-D data
     if( !PyArray_LSL_NDIM_OK(data1, 3) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signals1 array as a 3-D array");
@@ -957,6 +947,10 @@ static PyObject *XEngine2(PyObject *self, PyObject *args) {
         goto fail;
     }
 
+    // Validate the other input arrays against signals1
+    if( PyArray_DIM(data2, 0) != nStand || PyArray_DIM(data2, 1) != nChan || PyArray_DIM(data2, 2) != nFFT ) {
+        PyErr_Format(PyExc_RuntimeError, "signals1 and signals2 have different dimensions");
+        goto fail;
     }
     if( PyArray_DIM(valid1, 0) != nStand || PyArray_DIM(valid1, 1) != nFFT ) {
         PyErr_Format(PyExc_RuntimeError, "sigValid1 dimensions do not match signals1");
@@ -1079,10 +1073,6 @@ static PyObject *XEngine3(PyObject *self, PyObject *args) {
     nFFT = (long) PyArray_DIM(dataX, 2);
     nBL = (nStand+1)*nStand/2;
 
-    // Validate the other input arrays against signalsX
-    if( PyArray_DIM(dataY, 0) != nStand || PyArray_DIM(dataY, 1) != nChan || PyArray_DIM(dataY, 2) != nFFT ) {
-        PyErr_Format(PyExc_RuntimeError, "signalsX and signalsY have different dimensions");
-        goto fail;
     // Make sure that we actually have 3-D data
     if( !PyArray_LSL_NDIM_OK(dataX, 3) ) {
         PyErr_Format(PyExc_RuntimeError, "Cannot cast input signalsX array as a 3-D array");
@@ -1093,6 +1083,10 @@ static PyObject *XEngine3(PyObject *self, PyObject *args) {
         goto fail;
     }
 
+    // Validate the other input arrays against signalsX
+    if( PyArray_DIM(dataY, 0) != nStand || PyArray_DIM(dataY, 1) != nChan || PyArray_DIM(dataY, 2) != nFFT ) {
+        PyErr_Format(PyExc_RuntimeError, "signalsX and signalsY have different dimensions");
+        goto fail;
     }
     if( PyArray_DIM(validX, 0) != nStand || PyArray_DIM(validX, 1) != nFFT ) {
         PyErr_Format(PyExc_RuntimeError, "sigValidX dimensions do not match signalsX");
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index be8ffc2..fdd09f1 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -19,13 +19,6 @@
 #include "common.hpp"
 #include "blas.hpp"
 
-/*
-  Holder for window function callback
-*/
-
-static PyObject *windowFunc = NULL;
-
-
 /*
   FFT Functions
     1. FPSD - FFT a real or complex-valued collection of signals
@@ -268,9 +261,6 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_ValueError, "LFFT and overlap must be positive");
             goto fail;
         }
-        Py_XINCREF(window);
-        Py_XDECREF(windowFunc);
-        windowFunc = window;
     }
     
     // Bring the data into C and make it usable
@@ -292,8 +282,8 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Calculate the windowing function
-    if( windowFunc != Py_None ) {
-        windowData = compute_window(windowFunc, (1+isReal)*nChan);
+    if( window != Py_None ) {
+        windowData = compute_window(window, (1+isReal)*nChan);
         if( windowData == NULL ) {
             goto fail;
         }
@@ -399,9 +389,6 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_ValueError, "LFFT and overlap must be positive");
             goto fail;
         }
-        Py_XINCREF(window);
-        Py_XDECREF(windowFunc);
-        windowFunc = window;
     }
     
     // Bring the data into C and make it usable
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 721c1e8..907489d 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -20,13 +20,6 @@
 #include "blas.hpp"
 
 
-/*
-  Holder for window function callback
-*/
-
-static PyObject *windowFunc = NULL;
-
-
 /*
   FFT Functions
     1. FPSD - FFT a real or complex-valued collection of signals
@@ -328,9 +321,6 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_ValueError, "LFFT and overlap must be positive");
             goto fail;
         }
-        Py_XINCREF(window);
-        Py_XDECREF(windowFunc);
-        windowFunc = window;
     }
     
     // Bring the data into C and make it usable
@@ -373,8 +363,8 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Calculate the windowing function
-    if( windowFunc != Py_None ) {
-        windowData = compute_window(windowFunc, (1+isReal)*nChan);
+    if( window != Py_None ) {
+        windowData = compute_window(window, (1+isReal)*nChan);
         if( windowData == NULL ) {
             goto fail;
         }
@@ -487,9 +477,6 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_ValueError, "LFFT and overlap must be positive");
             goto fail;
         }
-        Py_XINCREF(window);
-        Py_XDECREF(windowFunc);
-        windowFunc = window;
     }
     
     // Bring the data into C and make it usable
-- 
2.43.0


From 0a454f01a25b215c796aa79e8501cfd687268ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:03 +0000
Subject: [PATCH 097/202] fix: a visibility that PolarizationDataSet.append
 refuses leaves the object unchanged

---
 lsl/imaging/data.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index 9bac1e1..a41a3a7 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -58,35 +58,25 @@ class PolarizationDataSet(object):
         Append a new visibility to the object.
         """
         
+        # Validate everything before changing anything
+        if weight is None:
+            weight = np.ones(data.shape, dtype=np.float32)
+        if weight.shape != data.shape:
+            raise ValueError("weight shape does not match the data shape")
+        if mask is None:
+            mask = np.zeros(data.shape, dtype=bool)
+        if mask.shape != data.shape:
+            raise ValueError("mask shape does not match the data shape")
+            
         if self.data.size == 0:
             ## Deal with the first batch of data being added
             self.data = np.atleast_2d(data)
-            
-            if weight is None:
-                weight = np.ones(data.shape, dtype=np.float32)
-            if weight.shape != data.shape:
-                raise ValueError("weight shape does not match the data shape")
             self.weight = np.atleast_2d(weight)
-            
-            if mask is None:
-                mask = np.zeros(data.shape, dtype=bool)
-            if mask.shape != data.shape:
-                raise ValueError("mask shape does not match the data shape")
             self.mask = np.atleast_2d(mask)
             
         else:
             self.data = np.vstack([self.data, data])
-            
-            if weight is None:
-                weight = np.ones(data.shape, dtype=np.float32)
-            if weight.shape != data.shape:
-                raise ValueError("weight shape does not match the data shape")
             self.weight = np.vstack([self.weight, weight])
-            
-            if mask is None:
-                mask = np.zeros(data.shape, dtype=bool)
-            if mask.shape != data.shape:
-                raise ValueError("mask shape does not match the data shape")
             self.mask = np.vstack([self.mask, mask])
             
     def extend(self, data, weight=None, mask=None):
-- 
2.43.0


From c930c0d44c5ad1c4dcd762309c0d946b65dc7fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:03 +0000
Subject: [PATCH 098/202] fix: VisibilityData copies and subsets work when the
 integrations differ in baselines or share a JD

---
 lsl/imaging/data.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index a41a3a7..b597aea 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -522,8 +522,7 @@ class VisibilityData(object):
         """
         
         data_copy = VisibilityData()
-        for data_set in self:
-            data_copy.append( data_set.copy(include_pols=include_pols) )
+        data_copy.extend( [data_set.copy(include_pols=include_pols) for data_set in self] )
         return data_copy
         
     def append(self, value):
@@ -590,8 +589,7 @@ class VisibilityData(object):
         """
         
         new_data = VisibilityData()
-        for data_set in self:
-            new_data.append( data_set.get_uv_range(min_uv=min_uv, max_uv=max_uv) )
+        new_data.extend( [data_set.get_uv_range(min_uv=min_uv, max_uv=max_uv) for data_set in self] )
         return new_data
         
     def get_antenna_subset(self, include=None, exclude=None, indicies=True):
@@ -608,7 +606,6 @@ class VisibilityData(object):
         """
         
         new_data = VisibilityData()
-        for data_set in self:
-            new_data.append( data_set.get_antenna_subset(include=include, exclude=exclude, indicies=indicies) )
+        new_data.extend( [data_set.get_antenna_subset(include=include, exclude=exclude, indicies=indicies) for data_set in self] )
         return new_data
         
-- 
2.43.0


From 6bea0dc72684ec5594d80cf9c415758d3aba9424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:03 +0000
Subject: [PATCH 099/202] fix: VisibilityDataSet.get_antenna_subset with
 antenna indicies does not need an antennaarray

---
 lsl/imaging/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index b597aea..90b70a0 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -347,15 +347,15 @@ class VisibilityDataSet(object):
                 raise AttributeError("No anntennaarray defined for this data set")
                 
         # Convert to indicies, if needed
-        stands = list(self.antennaarray.get_stands())
         if not indicies:
+            stands = list(self.antennaarray.get_stands())
             if include is not None:
                 include = [stands.index(i) for i in include if i in stands]
             if exclude is not None:
                 exclude = [stands.index(e) for e in exclude if e in stands]
                 
         # Merge include and exclude
-        to_keep = list(range(len(stands)))
+        to_keep = sorted({a for bl in self.baselines for a in bl})
         if include is not None:
             to_keep = include
         for e in exclude:
-- 
2.43.0


From ee81fc084e82b9c167b84a725344b1d65d29bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:55 +0000
Subject: [PATCH 100/202] fix: polarization conversions of VisibilityData whose
 integrations differ in baselines

---
 lsl/imaging/utils.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 8cd0d08..6746cf8 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1183,9 +1183,7 @@ def convert_to_stokes(data_set):
     # over them
     if isinstance(data_set, VisibilityData):
         new_data = VisibilityData()
-        for ds in data_set:
-            new_data_set = convert_to_stokes(ds)
-            new_data.append(new_data_set)
+        new_data.extend( [convert_to_stokes(ds) for ds in data_set] )
         return new_data
         
     if 'I' in data_set.pols or 'Q' in data_set.pols or 'U' in data_set.pols or 'V' in data_set.pols:
@@ -1251,9 +1249,7 @@ def convert_to_linear(data_set):
     # over them
     if isinstance(data_set, VisibilityData):
         new_data = VisibilityData()
-        for ds in data_set:
-            new_data_set = convert_to_linear(ds)
-            new_data.append(new_data_set)
+        new_data.extend( [convert_to_linear(ds) for ds in data_set] )
         return new_data
         
     if 'XX' in data_set.pols or 'YY' in data_set.pols or 'XY' in data_set.pols or 'YX' in data_set.pols:
@@ -1318,9 +1314,7 @@ def convert_to_circular(data_set):
     # over them
     if isinstance(data_set, VisibilityData):
         new_data = VisibilityData()
-        for ds in data_set:
-            new_data_set = convert_to_circular(ds)
-            new_data.append(new_data_set)
+        new_data.extend( [convert_to_circular(ds) for ds in data_set] )
         return new_data
         
     if 'RR' in data_set.pols or 'RL' in data_set.pols or 'LR' in data_set.pols or 'LL' in data_set.pols:
-- 
2.43.0


From 0db5c7c868cff169a6ade282c22179bec53d641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:01 +0000
Subject: [PATCH 101/202] fix: scale_data uses the baselines of each
 integration

---
 lsl/sim/vis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index d825b1a..32ca01b 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -1204,7 +1204,7 @@ def scale_data(dataSet, amps, delays, phase_offsets=None):
     for pds in sclData:
         if isinstance(pds, VisibilityDataSet):
             for ppds in pds:
-                for b,(i,j) in enumerate(sclData.baselines):
+                for b,(i,j) in enumerate(pds.baselines):
                     ppds.data[b,:] *= cGains[j].conj()*cGains[i] 
         else:
             for b,(i,j) in enumerate(sclData.baselines):
-- 
2.43.0


From c48c6a161caf8776d4f544a87ed222b4af9eb3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:01 +0000
Subject: [PATCH 102/202] fix: shift_data computes the coordinates for the time
 of each integration

---
 lsl/sim/vis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index 32ca01b..e0a6dd1 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -1231,10 +1231,17 @@ def shift_data(dataSet, aa):
     # Apply the coordinate shift
     if isinstance(shftData, VisibilityData):
         for data_set in shftData:
+            ## Point the array and the phase center to the time of this integration
+            aa.set_jultime(data_set.jd)
+            if not isinstance(data_set.phase_center, str):
+                data_set.phase_center.compute(aa)
             for b,(i,j) in enumerate(data_set.baselines):
                 crds = aa.gen_uvw(j, i, src=data_set.phase_center)[:,0,:]
                 data_set.uvw[b,:] = crds
     else:
+        aa.set_jultime(shftData.jd)
+        if not isinstance(shftData.phase_center, str):
+            shftData.phase_center.compute(aa)
         for b,(i,j) in enumerate(shftData.baselines):
             crds = aa.gen_uvw(j, i, src=shftData.phase_center)[:,0,:]
             shftData.uvw[b,:] = crds
-- 
2.43.0


From 7801d39a982fc643868ae737ad46fea80dc0653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:02 +0000
Subject: [PATCH 103/202] fix: add_baseline_noise works on data that do not
 start at antenna 0, or whose integrations differ in baselines

---
 lsl/sim/vis.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index e0a6dd1..673bb63 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -1273,12 +1273,11 @@ def add_baseline_noise(dataSet, SEFD, tInt, bandwidth=None, efficiency=1.0):
             raise RuntimeError("Too few frequencies to determine the bandwidth, use the 'bandwidth' keyword")
             
     # Make sure that we have an SEFD for each antenna
-    ants = []
-    for i,j in dataSet.baselines:
-        if i not in ants:
-            ants.append( i )
-        if j not in ants:
-            ants.append( j )
+    ants = set()
+    for data_set in (dataSet if isinstance(dataSet, VisibilityData) else [dataSet,]):
+        for i,j in data_set.baselines:
+            ants.update((i, j))
+    ants = sorted(ants)
     nAnts = len(ants)
     try:
         if len(SEFD) != nAnts:
@@ -1288,17 +1287,19 @@ def add_baseline_noise(dataSet, SEFD, tInt, bandwidth=None, efficiency=1.0):
         SEFD = np.ones(nAnts)*SEFD
         
     # Calculate the standard deviation of the real/imaginary noise
-    visNoiseSigma = np.zeros((len(dataSet.baselines), len(dataSet.freq)))
-    for k,(i,j) in enumerate(dataSet.baselines):
-        visNoiseSigma[k,:] = np.sqrt(SEFD[i]*SEFD[j])
-    visNoiseSigma *= 1 / efficiency / np.sqrt(2.0*bandwidth*tInt)
-    
+    def sigma(data_set):
+        visNoiseSigma = np.zeros((len(data_set.baselines), len(data_set.freq)))
+        for k,(i,j) in enumerate(data_set.baselines):
+            visNoiseSigma[k,:] = np.sqrt(SEFD[ants.index(i)]*SEFD[ants.index(j)])
+        return visNoiseSigma / efficiency / np.sqrt(2.0*bandwidth*tInt)
+        
     # Build the VisibilityDataSet to hold the data with noise added
     bnData = dataSet.copy(include_pols=True)
     
     # Apply the scales and delays for all polarization pairs found in the original data
     for pds in bnData:
         if isinstance(pds, VisibilityDataSet):
+            visNoiseSigma = sigma(pds)
             for ppds in pds:
                 ## Calculate the expected noise
                 visNoise = visNoiseSigma * (np.random.randn(*ppds.data.shape) \
@@ -1308,7 +1309,7 @@ def add_baseline_noise(dataSet, SEFD, tInt, bandwidth=None, efficiency=1.0):
                 ppds.data += visNoise
         else:
             ## Calculate the expected noise
-            visNoise = visNoiseSigma * (np.random.randn(*pds.data.shape) \
+            visNoise = sigma(bnData) * (np.random.randn(*pds.data.shape) \
                        + 1j*np.random.randn(*pds.data.shape))
             
             ## Apply
-- 
2.43.0


From 5e76c2033e663285a278d15aeb9b74099a2f7d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:02 +0000
Subject: [PATCH 104/202] fix: a source where the beam response is zero does
 not turn the other polarizations into NaN

---
 lsl/sim/vis.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index 673bb63..4461ce4 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -1091,17 +1091,13 @@ def __build_sim_data(aa, srcs, pols=['xx', 'yy', 'xy', 'yx'], jd=None, chan=None
         pcAz = phase_center.az*180/np.pi
         pcAlt = phase_center.alt*180/np.pi
         
+    jys = aa._cache['jys'].copy()
     for p,pol in enumerate(pols):
         ## Apply the antenna gain pattern for each source
         if not flat_response:
-            if p == 0:
-                for i in range(aa._cache['jys'].shape[0]):
-                    aa._cache['jys'][i,:] *= Bij_sf(aa._cache['s_top'][i,:], pol)
-            else:
-                for i in range(aa._cache['jys'].shape[0]):
-                    aa._cache['jys'][i,:] /= Bij_sf(aa._cache['s_top'][i,:], pols[p-1])	# Remove the old pol
-                    aa._cache['jys'][i,:] *=  Bij_sf(aa._cache['s_top'][i,:], pol)
-                    
+            for i in range(aa._cache['jys'].shape[0]):
+                aa._cache['jys'][i,:] = jys[i,:] * Bij_sf(aa._cache['s_top'][i,:], pol)
+                
         ## Simulate
         if not flat_response:
             uvw1, vis1 = FastVis(aa, baselines, chanMin, chanMax, pcAz, pcAlt, resolve_src=resolve_src)
@@ -1119,7 +1115,7 @@ def __build_sim_data(aa, srcs, pols=['xx', 'yy', 'xy', 'yx'], jd=None, chan=None
     # Cleanup
     if not flat_response:
         for i in range(aa._cache['jys'].shape[0]):
-            aa._cache['jys'][i,:] /= Bij_sf(aa._cache['s_top'][i,:], pols[-1])	# Remove the old pol
+            aa._cache['jys'][i,:] = jys[i,:]								# Remove the beam
             aa._cache['jys'][i,:] /= Gij_sf								# Remove the bandpass
             
     # Return
-- 
2.43.0


From a61410c07eded071b1e3676f939ca6c8dc516675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:02 +0000
Subject: [PATCH 105/202] fix: rephasing a data set without polarizations
 updates its coordinates

---
 lsl/imaging/data.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index 90b70a0..98cd5a9 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -262,26 +262,26 @@ class VisibilityDataSet(object):
             new_phase_center.compute(self.antennaarray)
             
         # Go!
-        for pds in self:
-            pds.data = pds.data.astype(np.complex128)
-            ## Loop over baselines
-            for k in range(self.nbaseline):
-                ### Load in the data
-                i,j = self.baselines[k]
-                vis = pds.data[k,:]
-                
-                ### Compute the uvw coordinates and the new phasing
-                try:
-                    crd = self.antennaarray.gen_uvw(j, i, src=new_phase_center)[:,0,:]
-                    vis = self.antennaarray.unphs2src(vis, self.phase_center, j, i)
-                    vis = self.antennaarray.phs2src(vis, new_phase_center, j, i)
-                except aipy.phs.PointingError:
-                    raise RuntimeError("Rephasing center is below the horizon")
-                    
-                ### Save
-                self.uvw[k,:,:] = crd
-                pds.data[k,:] = vis
+        new_uvw = np.array(self.uvw)
+        new_data = [pds.data.astype(np.complex128) for pds in self]
+        ## Loop over baselines
+        for k in range(self.nbaseline):
+            i,j = self.baselines[k]
+            
+            ### Compute the uvw coordinates and the new phasing
+            try:
+                new_uvw[k,:,:] = self.antennaarray.gen_uvw(j, i, src=new_phase_center)[:,0,:]
+                for data in new_data:
+                    vis = self.antennaarray.unphs2src(data[k,:], self.phase_center, j, i)
+                    data[k,:] = self.antennaarray.phs2src(vis, new_phase_center, j, i)
+            except aipy.phs.PointingError:
+                raise RuntimeError("Rephasing center is below the horizon")
                 
+        # Save
+        self.uvw = new_uvw
+        for pds,data in zip(self, new_data):
+            pds.data = data
+            
         # Update the phase center
         self.phase_center = new_phase_center
         
-- 
2.43.0


From 021871c21f71f55a876d3e5b2c616fa183f22aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 106/202] fix: copies of an AntennaArray keep its time, and it
 can be pickled

---
 lsl/sim/vis.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index 4461ce4..d5d93fc 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -578,10 +578,17 @@ class AntennaArray(aipy.amp.AntennaArray):
     def __copy__(self):
         result = AntennaArray((self.lat, self.lon, self.elev), self.ants)
         result.__dict__.update(self.__dict__)
+        result.date, result.epoch = self.date, self.epoch
         return result
         
     def __reduce__(self):
-        return (AntennaArray, ((self.lat, self.lon, self.elev), self.ants))
+        return (AntennaArray,
+                ((float(self.lat), float(self.lon), float(self.elev)), self.ants),
+                {'date': float(self.date), 'epoch': float(self.epoch), 'attrs': self.__dict__})
+        
+    def __setstate__(self, state):
+        self.date, self.epoch = state['date'], state['epoch']
+        self.__dict__.update(state['attrs'])
         
     @property
     def earth_location(self):
-- 
2.43.0


From 8f77a7fb85e9652a8386c93b6dd958a43acceb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:45 +0000
Subject: [PATCH 107/202] fix: the u and v tapers of ImgWPlus images were
 swapped

---
 lsl/imaging/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 6746cf8..e1a6797 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1477,7 +1477,7 @@ class ImgWPlus(aipy.img.ImgW):
             
         # Apply the taper
         if taper[0] > 0.0 or taper[1] > 0.0:
-            u,v = self.get_uv()
+            v,u = self.get_uv()     # The uv matrix is ordered v, u
             
             taper1 = 1.0
             if taper[0] > 0.0:
-- 
2.43.0


From a6e1236372668c04d0e574ea86a2dfa7b30bfda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:45 +0000
Subject: [PATCH 108/202] fix: unshifted image coordinates for images with an
 odd number of pixels

---
 lsl/imaging/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index e1a6797..3fb90f2 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1769,12 +1769,12 @@ def get_image_radec(gimg, shifted=True):
     # Shift, if needed
     if not shifted:
         raSize = ra.shape[0]	# should be square
-        ra = np.roll(ra, raSize//2, axis=0)
-        ra = np.roll(ra, raSize//2, axis=1)
+        ra = np.roll(ra, -(raSize//2), axis=0)
+        ra = np.roll(ra, -(raSize//2), axis=1)
         
         decSize = dec.shape[0]	# should be square
-        dec = np.roll(dec, decSize//2, axis=0)
-        dec = np.roll(dec, decSize//2, axis=1)
+        dec = np.roll(dec, -(decSize//2), axis=0)
+        dec = np.roll(dec, -(decSize//2), axis=1)
         
     # Done
     return ra, dec
-- 
2.43.0


From 9296826b421707243655196716abe0ae0312ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 109/202] fix: settings of an observation in an SDF leaked into
 the observations after it

---
 lsl/common/sdf.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 590c747..a6126aa 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2141,12 +2141,13 @@ def parse_sdf(filename):
     project.project_office.sessions = []
     project.project_office.observations = [[],]
     
-    obs_temp = {'id': 0, 'name': '', 'target': '', 'ra': 0.0, 'dec': 0.0, 'start': '', 'duration': '', 'mode': '', 
-                'beamDipole': None, 'freq1': 0, 'freq2': 0, 'filter': 0, 'HighDR': False, 'comments': None, 
-                'stpRADec': True, 'tbtSamples': 0, 'gain': -1, 
-                'obsFEE': [[-1,-1] for n in range(LWA_MAX_NSTD)], 
-                'aspFlt': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT1': [-1 for n in range(LWA_MAX_NSTD)], 
-                'aspAT2': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT3': [-1 for n in range(LWA_MAX_NSTD)]}
+    obs_default = {'id': 0, 'name': '', 'target': '', 'ra': 0.0, 'dec': 0.0, 'start': '', 'duration': '', 'mode': '', 
+                   'beamDipole': None, 'freq1': 0, 'freq2': 0, 'filter': 0, 'HighDR': False, 'comments': None, 
+                   'stpRADec': True, 'tbtSamples': 0, 'gain': -1, 
+                   'obsFEE': [[-1,-1] for n in range(LWA_MAX_NSTD)], 
+                   'aspFlt': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT1': [-1 for n in range(LWA_MAX_NSTD)], 
+                   'aspAT2': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT3': [-1 for n in range(LWA_MAX_NSTD)]}
+    obs_temp = copy.deepcopy(obs_default)
     beam_temp = {'id': 0, 'c1': 0.0, 'c2': 0.0, 'duration': 0, 'freq1': 0, 'freq2': 0, 'HighDR': False, 'delays': None, 'gains': None}
     beam_temps = []
     
@@ -2287,6 +2288,7 @@ def parse_sdf(filename):
                     project.sessions[0].observations.append( _parse_create_obs_object(obs_temp, beam_temps=beam_temps) )
                     beam_temp = {'id': 0, 'c1': 0.0, 'c2': 0.0, 'duration': 0, 'freq1': 0, 'freq2': 0, 'HighDR': False, 'delays': None, 'gains': None}
                     beam_temps = []
+                obs_temp = copy.deepcopy(obs_default)
                 obs_temp['id'] = int(value)
                 project.project_office.observations[0].append( None )
             
-- 
2.43.0


From 632ea8b373f3a26b8605b1d881dbc90043e0a441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 110/202] fix: the beam type of a step in an SDF leaked into
 the steps after it

---
 lsl/common/sdf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index a6126aa..70722f8 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2436,6 +2436,11 @@ def parse_sdf(filename):
                         beam_temps.append( copy.deepcopy(beam_temps[-1]) )
                         beam_temps[-1]['id'] = ids[0]
                     
+                    # Start over since this may be a copy of the previous step
+                    beam_temps[-1]['HighDR'] = False
+                    beam_temps[-1]['delays'] = None
+                    beam_temps[-1]['gains'] = None
+                    
                     if value in ('HIGH_DR', '2'):
                         beam_temps[-1]['HighDR'] = True
                     
-- 
2.43.0


From a32a50754deb8326fe0d9ce9b842fe0c8e81b80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 111/202] fix: settings of a scan or alternate phase center in
 an IDF leaked into the ones after it, such that some files could not be read

---
 lsl/common/idf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 22c6661..5242aef 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -1267,9 +1267,10 @@ def parse_idf(filename):
     project.project_office.runs = []
     project.project_office.scans = [[],]
     
-    obs_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0], 'start': '', 'duration': '', 'mode': '', 
-                'freq1': 0, 'freq2': 0, 'filter': 0, 'comments': None, 'nAlt': 0, 'gain': -1, 
-                'aspFlt': -1}
+    obs_default = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0], 'start': '', 'duration': '', 'mode': '', 
+                   'freq1': 0, 'freq2': 0, 'filter': 0, 'comments': None, 'nAlt': 0, 'gain': -1, 
+                   'aspFlt': -1}
+    obs_temp = copy.deepcopy(obs_default)
     alt_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0]}
     alt_temps = []
     
@@ -1390,6 +1391,7 @@ def parse_idf(filename):
                     project.runs[0].scans.append( _parse_create_scan_object(obs_temp, alt_temps=alt_temps) )
                     alt_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0]}
                     alt_temps = []
+                obs_temp = copy.deepcopy(obs_default)
                 obs_temp['id'] = int(value)
                 project.project_office.scans[0].append( None )
             
@@ -1453,7 +1455,7 @@ def parse_idf(filename):
                     alt_temps[-1]['target'] = value
                 else:
                     if alt_temps[-1]['id'] != ids[0]:
-                        alt_temps.append( copy.deepcopy(alt_temps[-1]) )
+                        alt_temps.append( copy.deepcopy(alt_temp) )
                         alt_temps[-1]['id'] = ids[0]
                     alt_temps[-1]['target'] = value
                 continue
-- 
2.43.0


From 127fbd86fc394c53279f62f708d8ac0a3769b969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 112/202] fix: rendering an SDF or IDF again grew the session
 comments by a ;; each time

---
 lsl/common/idf.py | 6 +++---
 lsl/common/sdf.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 5242aef..32982b3 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -193,12 +193,12 @@ class Project(object):
         if ses.ucf_username is not None:
             clean = ''
             if ses.comments:
-                clean = UCF_USERNAME_RE.sub('', ses.comments)
+                clean = UCF_USERNAME_RE.sub('', ses.comments).lstrip(';')
             ses.comments = f"ucfuser:{ses.ucf_username}"
             if len(clean) > 0:
                 ses.comments += ';;%s' % clean
         ## Project office comments, including the data return method
-        if pos != 'None' and pos is not None:
+        if pos not in ('None', '', None):
             pos = f"Requested data return method is {ses.dataReturnMethod};;{pos}"
             
         ## PI Information
@@ -222,7 +222,7 @@ class Project(object):
         output += "RUN_INTTIME      %.3f\n" % (ses.correlator_inttime,)
         output += "RUN_BASIS        %s\n" % (ses.correlator_basis,)
         output += "RUN_REMPI        %s\n" % (ses.comments[:4090] if ses.comments else 'None provided',)
-        output += "RUN_REMPO        %s\n" % (f"Requested data return method is {ses.dataReturnMethod}" if pos == 'None' or pos is None else pos[:4090],)
+        output += "RUN_REMPO        %s\n" % (f"Requested data return method is {ses.dataReturnMethod}" if pos in ('None', '', None) else pos[:4090],)
         output += "\n"
                     
         ## Scans
diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 70722f8..9e8eb2d 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -307,12 +307,12 @@ class Project(object):
         if ses.ucf_username is not None:
             clean = ''
             if ses.comments:
-                clean = UCF_USERNAME_RE.sub('', ses.comments)
+                clean = UCF_USERNAME_RE.sub('', ses.comments).lstrip(';')
             ses.comments = f"ucfuser:{ses.ucf_username}"
             if len(clean) > 0:
                 ses.comments += ';;%s' % clean
         ## Project office comments, including the data return method
-        if pos != 'None' and pos is not None:
+        if pos not in ('None', '', None):
             pos = f"Requested data return method is {ses.dataReturnMethod};;{pos}"
             
         ## PI Information
@@ -332,7 +332,7 @@ class Project(object):
         output += "SESSION_ID       %s\n" % (ses.id,)
         output += "SESSION_TITLE    %s\n" % ('None provided' if ses.name is None else ses.name,)
         output += "SESSION_REMPI    %s\n" % (ses.comments[:4090] if ses.comments else 'None provided',)
-        output += "SESSION_REMPO    %s\n" % (f"Requested data return method is {ses.dataReturnMethod}" if pos == 'None' or pos is None else pos,)
+        output += "SESSION_REMPO    %s\n" % (f"Requested data return method is {ses.dataReturnMethod}" if pos in ('None', '', None) else pos,)
         if ses.configuration_authority != 0:
             output += "SESSION_CRA      %i\n" % (ses.configuration_authority,)
         if ses.drx_beam != -1:
-- 
2.43.0


From 4a6b8ccc4ba1af43b8352d7fad88b964864ff879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 113/202] fix: FEE power settings for only one polarization of
 all stands were not written to the SDF

---
 lsl/common/sdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 9e8eb2d..c6bea1a 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -442,8 +442,9 @@ class Project(object):
             ## FEE power settings
             if all(j == obs.fee_power[0] for j in obs.fee_power):
                 ### All the same
-                if obs.fee_power[0][0] != -1 and obs.fee_power[0][1] != -1:
+                if obs.fee_power[0][0] != -1:
                     output += "OBS_FEE[%i][1]  %i\n" % (0, obs.fee_power[0][0])
+                if obs.fee_power[0][1] != -1:
                     output += "OBS_FEE[%i][2]  %i\n" % (0, obs.fee_power[0][1])
             else:
                 ### Some different
-- 
2.43.0


From 6d51e341579349d883e87366974d5958d93c8f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 114/202] fix: session flags that are 0 in an SDF were read as
 set

---
 lsl/common/sdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index c6bea1a..9b206c8 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2249,16 +2249,16 @@ def parse_sdf(filename):
                 project.sessions[0].update_mib[component] = int(value)
                 continue
             if keyword == 'SESSION_LOG_SCH':
-                project.sessions[0].include_mcssch_log = bool(value)
+                project.sessions[0].include_mcssch_log = bool(int(value))
                 continue
             if keyword == 'SESSION_LOG_EXE':
-                project.sessions[0].include_mcsexe_log = bool(value)
+                project.sessions[0].include_mcsexe_log = bool(int(value))
                 continue
             if keyword == 'SESSION_INC_SMIB':
-                project.sessions[0].include_station_smib = bool(value)
+                project.sessions[0].include_station_smib = bool(int(value))
                 continue
             if keyword == 'SESSION_INC_DES':
-                project.sessions[0].include_station_design = bool(value)
+                project.sessions[0].include_station_design = bool(int(value))
                 continue
             if keyword == 'SESSION_DRX_BEAM':
                 project.sessions[0].drx_beam = int(value)
-- 
2.43.0


From d96799f558ae09b6e2af3590a0c34b1b729923fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 115/202] fix: durations given as astropy quantities always
 failed

---
 lsl/common/idf.py | 2 +-
 lsl/common/sdf.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 32982b3..a13b852 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -710,7 +710,7 @@ class Scan(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 9b206c8..47612b6 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -630,7 +630,7 @@ class Observation(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
@@ -1628,7 +1628,7 @@ class BeamStep(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
-- 
2.43.0


From e9c332e6da45fb06cf5442a668b533ea99ba0716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 116/202] fix: start times given as astropy.time.Time instances
 were refused as not time zone-aware

---
 lsl/common/_sdf_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/_sdf_utils.py b/lsl/common/_sdf_utils.py
index 2a2caff..d70e6f3 100644
--- a/lsl/common/_sdf_utils.py
+++ b/lsl/common/_sdf_utils.py
@@ -113,7 +113,7 @@ def parse_time(s, station=lwa1):
     """
     
     if isinstance(s, AstroTime):
-        s = s.utc.datetime
+        s = s.utc.to_datetime(timezone=timezone.utc)
         
     if isinstance(s, datetime):
         if s.tzinfo is None:
-- 
2.43.0


From 1c29983d00c536a8aceebbd79db9c8c12823a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 117/202] fix: times within half a millisecond of the next
 second raised an error

---
 lsl/common/_sdf_utils.py | 7 ++++---
 lsl/common/idf.py        | 4 ++--
 lsl/common/sdf.py        | 4 ++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/lsl/common/_sdf_utils.py b/lsl/common/_sdf_utils.py
index d70e6f3..7817108 100644
--- a/lsl/common/_sdf_utils.py
+++ b/lsl/common/_sdf_utils.py
@@ -122,7 +122,7 @@ def parse_time(s, station=lwa1):
         # Round the microsecond value to milliseconds
         us = s.microsecond
         us = int(round(us/1000.0))*1000
-        dtObject = s.replace(microsecond=us)
+        dtObject = s.replace(microsecond=0) + timedelta(microseconds=us)
         
     else:
         mtch = _dtRE.match(s)
@@ -272,8 +272,9 @@ def parse_time(s, station=lwa1):
                 ## Trim the microsecond down to the millisecond level
                 microsecond = int(round(microsecond/1000.0))*1000
                 
-            # Localize as the appropriate time zone
-            dtObject = datetime(year, month, day, hour, minute, second, microsecond, tzinfo=tz)
+            # Localize as the appropriate time zone, carrying over any milliseconds
+            # that rounded up to a full second
+            dtObject = datetime(year, month, day, hour, minute, second, tzinfo=tz) + timedelta(microseconds=microsecond)
             
     # Return as UTC
     return dtObject.astimezone(timezone.utc)
diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index a13b852..11231b9 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -1555,11 +1555,11 @@ def get_scan_start_stop(obs):
     ## Start
     us = tStart.microsecond
     us = int(round(us/1000.0))*1000
-    tStart = tStart.replace(microsecond=us)
+    tStart = tStart.replace(microsecond=0) + timedelta(microseconds=us)
     ## Stop
     us = tStop.microsecond
     us = int(round(us/1000.0))*1000
-    tStop = tStop.replace(microsecond=us)
+    tStop = tStop.replace(microsecond=0) + timedelta(microseconds=us)
     
     # Return
     return tStart, tStop
diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 47612b6..335da1d 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2587,11 +2587,11 @@ def get_observation_start_stop(obs):
     ## Start
     us = tStart.microsecond
     us = int(round(us/1000.0))*1000
-    tStart = tStart.replace(microsecond=us)
+    tStart = tStart.replace(microsecond=0) + timedelta(microseconds=us)
     ## Stop
     us = tStop.microsecond
     us = int(round(us/1000.0))*1000
-    tStop = tStop.replace(microsecond=us)
+    tStop = tStop.replace(microsecond=0) + timedelta(microseconds=us)
     
     # Return
     return tStart, tStop
-- 
2.43.0


From 32671611e50f04959d95c787786d2c31134d09e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 118/202] fix: UTC offsets with a single digit hour were
 misread

---
 lsl/common/_sdf_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lsl/common/_sdf_utils.py b/lsl/common/_sdf_utils.py
index 7817108..e2f8375 100644
--- a/lsl/common/_sdf_utils.py
+++ b/lsl/common/_sdf_utils.py
@@ -175,8 +175,11 @@ def parse_time(s, station=lwa1):
                 tzOffsetSign = 1
                 if mtch.group('tzOffset')[0] == '-':
                     tzOffsetSign = -1
-                tzOffsetHours = int( mtch.group('tzOffset').replace(':', '')[1:3] )
-                tzOffsetMinutes = int( mtch.group('tzOffset').replace(':', '')[3:5] )
+                if ':' in mtch.group('tzOffset'):
+                    tzOffsetHours, tzOffsetMinutes = [int(v) for v in mtch.group('tzOffset')[1:].split(':')]
+                else:
+                    tzOffsetHours = int( mtch.group('tzOffset')[1:3] )
+                    tzOffsetMinutes = int( mtch.group('tzOffset')[3:5] )
                 
                 tzOffsetSeconds = tzOffsetHours*3600 + tzOffsetMinutes*60
                 tzOffsetSeconds *= tzOffsetSign
-- 
2.43.0


From f39e1690da39728bbf41d7900f69bd6ae6e6f0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 119/202] fix: an out-of-range declination raised a NameError

---
 lsl/common/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 335da1d..105ec84 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -670,7 +670,7 @@ class Observation(object):
         elif isinstance(value, str):
             value = AstroAngle(value).to('deg').value
         if value < -90.0 or value > 90.0:
-            raise ValueError(f"Invalid value for dec. '{dec:+.6f}' deg")
+            raise ValueError(f"Invalid value for dec. '{value:+.6f}' deg")
         self._dec = value
         
     @property
-- 
2.43.0


From 7166527e17ba6401551c34126294893ae093b74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 120/202] fix: sdf.Project.autofilled always raised a NameError

---
 lsl/common/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 105ec84..99179dc 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -232,7 +232,7 @@ class Project(object):
         id = OBSV_CONFIG.get('project_id')
         if name is None or id is None:
             raise RuntimeError("Auto-fill values for the project cannot be loaded from the configuration file")
-        return cls(observer, name, id, sessions=session, comments=comments, project_office=project_office)
+        return cls(observer, name, id, sessions=sessions, comments=comments, project_office=project_office)
         
     def update(self):
         """Update the various sessions that are part of this project."""
-- 
2.43.0


From fbfc3a02a1f610f5550b9afac8f673a56c8c5998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 121/202] fix: observations of the wrong type were silently
 dropped along with the rest of the list

---
 lsl/common/sdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 99179dc..3fda714 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -131,6 +131,8 @@ class _TypedParentList(list):
                 for value in values:
                     value._parent = self.parent
             list.extend(self, values)
+        else:
+            raise TypeError("Expected one of: %s" % (', '.join([t.__name__ for t in self.allowed_types])))
             
     def insert(self, index, value):
         if isinstance(value, self.allowed_types):
-- 
2.43.0


From c461788fb7089a13b831ad67c998d01ac74b222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 122/202] fix: beam steps could not be created from astropy
 angles or strings, nor validated on their own

---
 lsl/common/idf.py |  2 ++
 lsl/common/sdf.py | 10 ++++------
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 11231b9..c56241d 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -1037,6 +1037,8 @@ class Jovian(Scan):
 class AlternatePhaseCenter(object):
     """Class to hold an alternate phase center for a scan."""
     
+    _parent = None
+    
     def __init__(self, target, intent, ra, dec, pm=[0.0, 0.0]):
         self.target = target
         self.intent = intent
diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 3fda714..51476d1 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1511,14 +1511,12 @@ class BeamStep(object):
         instances
     """
     
+    _parent = None
+    
     def __init__(self, c1, c2, duration, frequency1, frequency2, is_radec=True, high_dr=False, spec_delays=None, spec_gains=None):
         self.is_radec = bool(is_radec)
-        if self.is_radec:
-            convFactor = 12.0/math.pi
-        else:
-            convFactor = 180.0/math.pi
-        self.c1 = float(c1) * (convFactor if type(c1).__name__ == 'Angle' else 1.0)
-        self.c2 = float(c2) * (180.0/math.pi if type(c2).__name__ == 'Angle' else 1.0)
+        self.c1 = c1
+        self.c2 = c2
         if isinstance(duration, timedelta):
             # Make sure the number of microseconds agree with milliseconds
             us = int(round(duration.microseconds/1000.0))*1000
-- 
2.43.0


From fbd16904375857c17ee4f461130f9c9c344da494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 123/202] fix: steps had to be above the horizon for the whole
 stepped observation instead of their own time

---
 lsl/common/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 51476d1..9c22ac8 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1410,7 +1410,7 @@ class Stepped(Observation):
                 pnt = step.fixed_body
                 
                 dt = 0.0
-                while dt <= self.dur/1000.0:
+                while dt <= step.dur/1000.0:
                     station.date = self.mjd + (relStart/1000.0 + self.mpm/1000.0 + dt)/3600/24.0 + MJD_OFFSET - DJD_OFFSET
                     pnt.compute(station)
                     max_alt = max([max_alt, pnt.alt])
-- 
2.43.0


From 0c45c4472683b8834e1156373c5d7efcdd1e8654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 124/202] fix: stepped observations without steps raised a
 ZeroDivisionError and ones with the maximum number of steps were refused

---
 lsl/common/sdf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 9c22ac8..2005d6b 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1448,6 +1448,10 @@ class Stepped(Observation):
             failures += 1
             
         # Basic - steps
+        if len(self.steps) == 0:
+            LSL_LOGGER.error("No steps set for this observation")
+            return False
+            
         stepCount = 1
         for step in self.steps:
             LSL_LOGGER.info(f"Validating step {stepCount}")
@@ -1459,8 +1463,8 @@ class Stepped(Observation):
                 
             stepCount += 1
             
-        if stepCount > MAX_STP_N:
-            LSL_LOGGER.error(f"Too many steps ({stepCount}) set for this observation")
+        if len(self.steps) > MAX_STP_N:
+            LSL_LOGGER.error(f"Too many steps ({len(self.steps)}) set for this observation")
             failures += 1
             
         # Advanced - Target Visibility
-- 
2.43.0


From 3affe600d9be88995632076069fe7351d634e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 125/202] fix: beam-dipole mode used half-integer stand numbers
 and failed for stands that do not exist

---
 lsl/common/sdf.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 2005d6b..a98d4ad 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1037,8 +1037,11 @@ class DRX(Observation):
                 
             for ant in station.antennas:
                 if ant.stand.id == stand:
-                    dpStand = (ant.digitizer+1)/2
-                    
+                    dpStand = (ant.digitizer+1)//2
+                    break
+            else:
+                raise ValueError(f"Stand number {stand} is not part of {station.name}")
+                
             self.beamDipole = [dpStand, beam_gain, dipole_gain, pol.upper()]
             
     def estimate_bytes(self):
@@ -1360,8 +1363,11 @@ class Stepped(Observation):
                 
             for ant in station.antennas:
                 if ant.stand.id == stand:
-                    dpStand = (ant.digitizer+1)/2
-                    
+                    dpStand = (ant.digitizer+1)//2
+                    break
+            else:
+                raise ValueError(f"Stand number {stand} is not part of {station.name}")
+                
             self.beamDipole = [dpStand, beam_gain, dipole_gain, pol.upper()]
             
     def estimate_bytes(self):
-- 
2.43.0


From 0cccea8d88b90767ac07d14b69ed791d9048a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 126/202] fix: the spectrometer setup of a session could not be
 disabled again with 0 as documented

---
 lsl/common/sdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index a98d4ad..b7be4a7 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1826,7 +1826,7 @@ class Session(object):
         """Set the number of spectrometer channels to generate, 0 to disable."""
         
         value = int(value)
-        if value not in (2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192):
+        if value not in (0, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192):
             raise ValueError(f"Invalid DR spectrometer channel count '{value}'")
         self.spc_setup[0] = value
         
@@ -1842,7 +1842,7 @@ class Session(object):
         0 to disable."""
         
         value = int(value)
-        if value not in (384, 768, 1536, 3072, 6144, 12288, 24576, 49152, 98304, 196608):
+        if value not in (0, 384, 768, 1536, 3072, 6144, 12288, 24576, 49152, 98304, 196608):
             raise ValueError(f"Invalid DR spectrometer integration count '{value}'")
         self.spc_setup[1] = value
         
-- 
2.43.0


From 73bfb7229462de4570c0ae5a5384a83f04c9bea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 127/202] fix: SDFs could only be generated from IDFs with
 project office and scan comments

---
 lsl/common/idf.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index c56241d..47a7585 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -302,6 +302,17 @@ class Project(object):
         ## Setup the common information
         start = mjdmpm_to_datetime(ses.scans[0].mjd, ses.scans[0].mpm)
         new_observer = sdf.Observer(copy.deepcopy(self.observer.name), copy.deepcopy(self.observer.id))
+        ## Project office comments, if there are any
+        try:
+            po_run = self.project_office.runs[run]
+        except (TypeError, IndexError):
+            po_run = None
+        try:
+            po_scans = list(self.project_office.scans[run])
+        except (TypeError, IndexError):
+            po_scans = []
+        while len(po_scans) < len(ses.scans):
+            po_scans.append(None)
         ## Go!
         sdfs = []
         for i,station in enumerate(ses.stations):
@@ -314,8 +325,8 @@ class Project(object):
             
             ## Project Office
             new_projoff = sdf.ProjectOffice(project=copy.deepcopy(self.project_office.project), 
-                                               sessions=copy.deepcopy([self.project_office.runs[run],]), 
-                                               observations=copy.deepcopy([self.project_office.scans[run],]))
+                                               sessions=[po_run,], 
+                                               observations=[copy.copy(po_scans),])
             
             ## Observations
             for o,obs in enumerate(ses.scans):
@@ -326,7 +337,7 @@ class Project(object):
                     ra = obs.ra + delta_epoch * obs.pm[0]/math.cos(obs.dec*math.pi/180)/1000.0/3600.0/15.0
                     dec = obs.dec + delta_epoch * obs.pm[1]/1000.0/3600.0
                     comments = ''
-                    if comments is not None:
+                    if obs.comments is not None:
                         comments += obs.comments
                     if obs.pm[0] != 0.0 or obs.pm[1] != 0.0:
                         comments = comments+";;Applied proper motion of %+.1f mas/yr in RA and %+.1f mas/yr in dec" % (obs.pm[0], obs.pm[1])
@@ -358,10 +369,6 @@ class Project(object):
                     alt_r = alt_r + delta_epoch * alt_pr/math.cos(alt_d*math.pi/180)/1000.0/3600.0/15.0
                     alt_d = alt_d + delta_epoch * alt_pd/1000.0/3600.0
                     
-                    try:
-                        new_projoff.observations[0][o]
-                    except IndexError:
-                        new_projoff.observations[0][o] = None
                     if new_projoff.observations[0][o] is None:
                         new_projoff.observations[0][o] = ''
                     new_projoff.observations[0][o] = "alttarget%i:%s;;altintent%i:%s;;altra%i:%.9f;;altdec%i:%+.9f;;%s" % (cid, alt_t, cid, alt_i, cid, alt_r, cid, alt_d, new_projoff.observations[0][o])
-- 
2.43.0


From 9f3d9a7e5fbc5640cd84f4993bce04fb85f878e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 128/202] fix: the ASP filter of a scan was lost when
 generating SDFs

---
 lsl/common/idf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 47a7585..b4762cf 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -356,6 +356,8 @@ class Project(object):
                                             gain=obs.gain, high_dr=False, comments=obs.comments)
                 else:
                     raise RuntimeError("This should never happen")
+                if obs.asp_filter != -1:
+                    new_obs.asp_filter = [obs.asp_filter for n in range(len(new_obs.asp_filter))]
                 session.append(new_obs)
                 
                 npc = len(obs.alt_phase_centers)
-- 
2.43.0


From 189973f50865e268b840d019e6d0d0630a981f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:32 +0000
Subject: [PATCH 129/202] fix: proper motion across RA 0h made generating SDFs
 fail

---
 lsl/common/idf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index b4762cf..15b5356 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -335,6 +335,7 @@ class Project(object):
                     ### Apply the proper motion to generate the SDFs
                     delta_epoch = (obs.mjd + obs.mpm/1000.0/86400.0 - 51544.5) / 365.25
                     ra = obs.ra + delta_epoch * obs.pm[0]/math.cos(obs.dec*math.pi/180)/1000.0/3600.0/15.0
+                    ra %= 24.0
                     dec = obs.dec + delta_epoch * obs.pm[1]/1000.0/3600.0
                     comments = ''
                     if obs.comments is not None:
@@ -369,6 +370,7 @@ class Project(object):
                     ### Apply the proper motion to generate the SDFs
                     delta_epoch = (obs.mjd + obs.mpm/1000.0/86400.0 - 51544.5) / 365.25
                     alt_r = alt_r + delta_epoch * alt_pr/math.cos(alt_d*math.pi/180)/1000.0/3600.0/15.0
+                    alt_r %= 24.0
                     alt_d = alt_d + delta_epoch * alt_pd/1000.0/3600.0
                     
                     if new_projoff.observations[0][o] is None:
-- 
2.43.0


From f1c9243120c31c230d4944e9d76bf930080f016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 130/202] fix: angles within rounding of a whole minute came
 out a minute off as degrees or hours, minutes and seconds

---
 lsl/astro.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 20fade9..0f333eb 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1769,8 +1769,9 @@ def _float_to_sexa(value):
         value *= -1
         
     d = int(value)
-    m = int(value * 60) % 60
-    s = (value * 3600.0) % 60.0
+    m = (value - d) * 60
+    s = (m - int(m)) * 60
+    m = int(m)
     
     return sgn, d, m, s
 
-- 
2.43.0


From aff883b300c20f56799c389e0b50a7c911222214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 131/202] fix: negative angles lost their sign as hours,
 minutes and seconds, and those of more than one turn failed

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 0f333eb..e327ae8 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1846,7 +1846,7 @@ def deg_to_hms(degrees):
     Returns object of type hms representing angle.
     """
     
-    sgn,h,m,s = _float_to_sexa(degrees / 15.0)
+    sgn,h,m,s = _float_to_sexa((degrees / 15.0) % 24.0 % 24.0)
     return hms(h, m, s)
 
 
-- 
2.43.0


From 1a37a9ae07edfd7aaf7c98cea86ba1fbbcac761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 132/202] fix: adding hours, minutes and seconds dropped the
 hours of the sum

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index e327ae8..3f11947 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1893,7 +1893,7 @@ def add_hms(source, dest):
     degrees1 += degrees2
     _hms = deg_to_hms(degrees1)
     
-    dest.degrees = 1*_hms.hours
+    dest.hours = 1*_hms.hours
     dest.minutes = 1*_hms.minutes
     dest.seconds = 1*_hms.seconds
     
-- 
2.43.0


From 9cc942c57a35b03e3bbc01b70a94c99cd19107b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 133/202] fix: times within half a millisecond of the next
 second moved by a second between time zones

---
 lsl/astro.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 3f11947..ff7f58e 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1669,9 +1669,8 @@ def date_to_zonedate(date, gmtoff):
     Returns object of type zonedate representing local time.
     """
     
-    t0 = time.strptime(str(date), "%Y-%m-%d %H:%M:%S.%f")
     fracSec = date.seconds - int(date.seconds)
-    t1 = timegm(t0) + gmtoff
+    t1 = timegm((date.years, date.months, date.days, date.hours, date.minutes, int(date.seconds))) + gmtoff
     years, months, days, hours, minutes, seconds, wday, yday, dst = time.gmtime(t1)
     
     _zdate = zonedate()
@@ -1694,10 +1693,8 @@ def zonedate_to_date(zonedate):
     Returns object of type date representing UTC time.
     """
     
-    t0, junk = str(zonedate).rsplit(None, 1)
-    t0 = time.strptime(t0, "%Y-%m-%d %H:%M:%S.%f")
     fracSec = zonedate.seconds - int(zonedate.seconds)
-    t1 = timegm(t0) - zonedate.gmtoff
+    t1 = timegm((zonedate.years, zonedate.months, zonedate.days, zonedate.hours, zonedate.minutes, int(zonedate.seconds))) - zonedate.gmtoff
     years, months, days, hours, minutes, seconds, wday, yday, dst = time.gmtime(t1)
     
     _date = date()
-- 
2.43.0


From 8385cbab7ce022a9c81fa5a63c26ea52b6390120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 134/202] fix: loading a date with seconds that are out of
 range raised a NameError

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index ff7f58e..fcce209 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -481,7 +481,7 @@ class date(object):
         except ValueError:
             raise ValueError(f"seconds incorrectly formatted: {secondStr}")
         if second < 0.0 or second >= 60.0:
-            raise ValueError(f"seconds parameter range is [0.0, 60.0), is set to {seconds:0.3f}")
+            raise ValueError(f"seconds parameter range is [0.0, 60.0), is set to {second:0.3f}")
             
         # set attributes
         self.years = year
-- 
2.43.0


From 0af14816373640fe585ba30d1022ffe956409dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 135/202] fix: the day of the week was wrong at midnight of
 every other day

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index fcce209..0403f8d 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1994,7 +1994,7 @@ def get_day_of_week(date):
     """
     
     jd = date.to_jd()
-    return (int(round(jd)) + 1) % 7
+    return (int(math.floor(jd + 0.5)) + 1) % 7
 
 
 def get_julian_from_sys():
-- 
2.43.0


From 577dd3e4a2a59db7082c4ae1e96a123766bdf4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 136/202] fix: range_hours gave 24 instead of 0 for negative
 multiples of a day

---
 lsl/astro.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 0403f8d..926c0df 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2898,12 +2898,7 @@ def range_hours(hours):
     if (hours >= 0.0) and (hours < 24.0):
         return hours
         
-    temp = int(hours / 24)
-    if hours < 0.0:
-        temp -= 1
-    temp *= 24
-    
-    return hours - temp
+    return hours % 24.0
 
 
 def jd_to_mjd(jd):
-- 
2.43.0


From 1b9e908d72948e9d1a1145868db8b8a7acbc09cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 137/202] fix: tt_to_tdb took TT for TAI and was 32 seconds off

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 926c0df..9ec4828 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -3122,7 +3122,7 @@ def tt_to_tdb(ttJD):
     Returns: The TDB JD value (float).
     """    
     
-    t = AstroTime(ttJD, format='jd', scale='tai')
+    t = AstroTime(ttJD, format='jd', scale='tt')
     return t.tdb.jd  
 
 
-- 
2.43.0


From 046adae1d2a55bcf0baabd93e8890e31c541e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 138/202] fix: angular separations and position angles of plain
 positions raised an error

---
 lsl/astro.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 9ec4828..6680c8f 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2268,11 +2268,11 @@ def get_angular_separation(posn1, posn2):
     sc1 = posn1.astropy
     if sc1 is None:
         sc1 = SkyCoord(posn1.ra*astrounits.deg, posn1.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
     sc2 = posn2.astropy
     if sc2 is None:
         sc2 = SkyCoord(posn2.ra*astrounits.deg, posn2.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
         
     sep = sc1.separation(sc2)
     
@@ -2292,11 +2292,11 @@ def get_rel_posn_angle(posn1, posn2):
     sc1 = posn1.astropy
     if sc1 is None:
         sc1 = SkyCoord(posn1.ra*astrounits.deg, posn1.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
     sc2 = posn2.astropy
     if sc2 is None:
         sc2 = SkyCoord(posn2.ra*astrounits.deg, posn2.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
         
     pa = sc1.position_angle(sc2)
     
-- 
2.43.0


From 51e8454e8de098cd5b78002db7c327db315a1483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 139/202] fix: get_ecl_from_rect always raised a TypeError

---
 lsl/astro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 6680c8f..873976e 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2119,8 +2119,8 @@ def get_ecl_from_rect(rect):
     y = rect.Y
     z = rect.Z
     
-    sc = GeocentricTrueEcliptic(CartesianRepresentation(x*astrounits.au, y*astrounits.au, z*astrounits.au),
-                                equinox='J2000')
+    sc = SkyCoord(GeocentricTrueEcliptic(CartesianRepresentation(x*astrounits.au, y*astrounits.au, z*astrounits.au),
+                                         equinox='J2000'))
 
     return ecl_posn.from_astropy(sc)
 
-- 
2.43.0


From 7a7f1189e20c8e909836b24154ca687d4e980fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 140/202] fix: rise, set and transit times failed for sources
 that never rise and for southern sites

---
 lsl/astro.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 873976e..d9aa747 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2424,10 +2424,10 @@ def get_object_rst(jD, observer, target):
                       frame='fk5', equinox='J2000')
         
     # Part 1 - Course +/1 day search for the anti-transits
-    t = AstroTime(jD+np.linspace(-1, 1, 192), format='jd', scale='utc')
+    t = AstroTime(jD+np.linspace(-1.05, 1.05, 202), format='jd', scale='utc')
     aa = AltAz(location=el, obstime=t)
     aa = sc.transform_to(aa)
-    antitransits = np.where(np.diff(aa.az[...].deg) < -180)[0]
+    antitransits = np.where(np.diff(np.sign(np.diff(aa.alt.deg))) > 0)[0] + 1
     if len(antitransits) == 0:
         # No anti-transits = it never rises or never sets
         return None
@@ -2435,6 +2435,9 @@ def get_object_rst(jD, observer, target):
     # Part 2 - Determine the approximate rise, set, and transit times
     #          based on when the source is up.
     above = np.where(aa.alt[antitransits[0]:antitransits[1]] >= 0)[0]
+    if len(above) == 0:
+        # It never rises
+        return None
     rise = above[0] + antitransits[0]
     set = above[-1] + antitransits[0]
     transit = (rise + set) // 2
@@ -2513,12 +2516,12 @@ def _get_solar_system_rst(jD, observer, body):
                                      ellipsoid='WGS84')
         
     # Part 1 - Course +/1 day search for the anti-transits
-    t = AstroTime(jD+np.linspace(-1, 1, 192), format='jd', scale='utc')
+    t = AstroTime(jD+np.linspace(-1.05, 1.05, 202), format='jd', scale='utc')
     with solar_system_ephemeris.set(SOLAR_SYSTEM_EPHEMERIS_TO_USE):
         sc = get_body(body, t, location=el)
         aa = AltAz(location=el, obstime=t)
         aa = sc.transform_to(aa)
-    antitransits = np.where(np.diff(aa.az[...].deg) < -180)[0]
+    antitransits = np.where(np.diff(np.sign(np.diff(aa.alt.deg))) > 0)[0] + 1
     if len(antitransits) == 0:
         # No anti-transits = it never rises or never sets
         return None
@@ -2529,6 +2532,9 @@ def _get_solar_system_rst(jD, observer, body):
         above = np.where(aa.alt[antitransits[0]:antitransits[1]] >= 0)[0]
     except IndexError:
         above = np.where(aa.alt[antitransits[0]:] >= 0)[0]
+    if len(above) == 0:
+        # It never rises
+        return None
     rise = above[0] + antitransits[0]
     set = above[-1] + antitransits[0]
     transit = (rise + set) // 2
-- 
2.43.0


From e40bb554a715fc129e225d61b3ec911a4d01fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 141/202] fix: transit times were up to half a minute off

---
 lsl/astro.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index d9aa747..5709da0 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2481,8 +2481,7 @@ def get_object_rst(jD, observer, target):
     aa = AltAz(location=el, obstime=tt)
     aa = sc.transform_to(aa)
     ttf = np.polyfit(aa.obstime.jd-aa.obstime.jd[np.argmax(aa.alt)], aa.alt, 3)
-    tt = -ttf[1] - np.sqrt(ttf[1]**2 - 4*ttf[0]*ttf[2])
-    tt /= 2*ttf[0]
+    tt = ttf[2] / (-ttf[1] + np.sqrt(ttf[1]**2 - 3*ttf[0]*ttf[2]))
     tt += aa.obstime.jd[np.argmax(aa.alt)]
     
     _rst.rise = tr
@@ -2585,8 +2584,7 @@ def _get_solar_system_rst(jD, observer, body):
         aa = AltAz(location=el, obstime=tt)
         aa = sc.transform_to(aa)
     ttf = np.polyfit(aa.obstime.jd-aa.obstime.jd[np.argmax(aa.alt)], aa.alt, 3)
-    tt = -ttf[1] - np.sqrt(ttf[1]**2 - 4*ttf[0]*ttf[2])
-    tt /= 2*ttf[0]
+    tt = ttf[2] / (-ttf[1] + np.sqrt(ttf[1]**2 - 3*ttf[0]*ttf[2]))
     tt += aa.obstime.jd[np.argmax(aa.alt)]
     
     _rst.rise = tr
-- 
2.43.0


From 9123966b66ec4ec2f1503c4fcb2f2cc38b98fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 142/202] fix: proper motions were ignored in apparent
 positions

---
 lsl/astro.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 5709da0..2da0f42 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2309,6 +2309,8 @@ def get_rel_posn_angle(posn1, posn2):
 
 _DEFAULT_PROPER_MOTION = equ_posn(0.0, 0.0)
 
+_J2000_AT = AstroTime('J2000', scale='tt')
+
 def get_apparent_posn(mean_position, jD, proper_motion = None):
     """
     Get apparent position of celestial object accounting for precession, nutation, 
@@ -2336,9 +2338,14 @@ def get_apparent_posn(mean_position, jD, proper_motion = None):
     sc = mean_position.astropy
     if sc is None:
         sc = SkyCoord(mean_position.ra*astrounits.deg, mean_position.dec*astrounits.deg,
-                      pm_ra_cosdec=proper_motion[0]*math.cos(proper_motion[1]/1000/3600*math.pi/180)*astrounits.mas/astrounits.yr,
-                      pm_dec= proper_motion[1]*astrounits.mas/astrounits.yr,
                       frame='fk5', equinox='J2000')
+    if proper_motion[0] != 0 or proper_motion[1] != 0:
+        yr = (t - _J2000_AT).to('yr').value
+        lat = sc.dec.rad
+        pm = math.hypot(proper_motion[0]*math.cos(lat), proper_motion[1])
+        pa = math.atan2(proper_motion[0]*math.cos(lat), proper_motion[1])
+        sc = SkyCoord(sc.ra, sc.dec, frame=sc.frame.replicate_without_data() if isinstance(sc, SkyCoord) else sc.replicate_without_data())
+        sc = sc.directional_offset_by(pa*astrounits.rad, pm*yr*astrounits.mas)
     sc = sc.transform_to(PrecessedGeocentric(equinox=t, obstime=t))
     
     return equ_posn.from_astropy(sc)
-- 
2.43.0


From a0e07d563200621a14838e9f7c1f6288a6850dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 143/202] fix: copies of converted positions lost their frame,
 proper motion and distance

---
 lsl/astro.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 2da0f42..8e56fc4 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -806,7 +806,7 @@ class hrz_posn(object):
         hrz_posn object pickle reduce method.
         """
         
-        return (hrz_posn, (self.az, self.alt))
+        return (hrz_posn, (self.az, self.alt), self.__dict__)
         
     def __getitem__(self, key):
         """
@@ -1139,7 +1139,7 @@ class equ_posn(object):
         equ_posn object pickle reduce method.
         """
             
-        return (equ_posn, (self.ra,self.dec))
+        return (equ_posn, (self.ra,self.dec), self.__dict__)
 
 
 class gal_posn(object):
@@ -1284,7 +1284,7 @@ class gal_posn(object):
         gal_posn object pickle reduce method.
         """
         
-        return (gal_posn, (self.l, self.b))
+        return (gal_posn, (self.l, self.b), self.__dict__)
         
     def __getitem__(self, key):
         """
@@ -1590,7 +1590,7 @@ class ecl_posn(object):
         ecl_posn object pickle reduce method.
         """
         
-        return (ecl_posn, (self.lng, self.lat))
+        return (ecl_posn, (self.lng, self.lat), self.__dict__)
         
     def __getitem__(self, key):
         """
@@ -3305,7 +3305,7 @@ class geo_posn(object):
         geo_posn object pickle reduce method.
         """
         
-        return (geo_posn, (self.lng, self.lat, self.elv))
+        return (geo_posn, (self.lng, self.lat, self.elv), self.__dict__)
         
     def __getitem__(self, key):
         """
-- 
2.43.0


From c31ac1f21c0928d64673cd3e187b0aa615005cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 144/202] fix: the parallax of resolved sources was taken as
 their distance

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 8e56fc4..c4c2ef3 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -3575,7 +3575,7 @@ def resolve_name(name):
                 pmRA = None
                 pmDec = None
             if plx is not None:
-                dist = float(plx.find('v').text)
+                dist = 1000.0 / float(plx.find('v').text)   # parallax in mas
             else:
                 dist = None
                 
-- 
2.43.0


From 4fe72acf3d22a74c7b93263c2d0fec058bebd24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 145/202] fix: times from 196 MHz clock samples were off by up
 to years

---
 lsl/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/transform.py b/lsl/transform.py
index 4e390c2..6de132e 100644
--- a/lsl/transform.py
+++ b/lsl/transform.py
@@ -223,14 +223,14 @@ class Time(object):
         
     @property
     def utc_dp(self):
-        return int(self._time.utc.unix * fS)
+        return int(round(self._time.utc.to_value('unix', subfmt='decimal') * int(fS)))
         
     @utc_dp.setter
     def utc_dp(self, value):
         if not isinstance(value, int):
             raise TypeError("value must be type int")
             
-        self._time = AstroTime(value // fS, value % fS, format='unix', scale='utc')
+        self._time = AstroTime(value // int(fS), (value % int(fS)) / fS, format='unix', scale='utc')
         
     @property
     def utc_mcs(self):
-- 
2.43.0


From bca6e7d7e90966cd8b5a0b73ae645677a11bd5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:34 +0000
Subject: [PATCH 146/202] fix: times within half a millisecond of midnight had
 an MPM past the end of the day

---
 lsl/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/transform.py b/lsl/transform.py
index 6de132e..71fbd60 100644
--- a/lsl/transform.py
+++ b/lsl/transform.py
@@ -236,6 +236,8 @@ class Time(object):
     def utc_mcs(self):
         mjd = int(self.utc_mjd)
         mpm = int(round((self.utc_mjd - mjd) * 86400 * 1000))
+        if mpm == 86400000:
+            mjd, mpm = mjd + 1, 0
         return (mjd, mpm)
         
     @utc_mcs.setter
-- 
2.43.0


From 42e41da9e807d114262d06d1f91628d2bef2d6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:53 +0000
Subject: [PATCH 147/202] fix: equatorial positions obtained from horizontal or
 ecliptic ones could not be converted further

---
 lsl/astro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index c4c2ef3..851ad73 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -923,7 +923,9 @@ class equ_posn(object):
         if isinstance(value, SkyCoord):
             if not isinstance(value.frame, (ICRS, FK4, FK5, PrecessedGeocentric)):
                 raise TypeError("Expected a SkyCoord in the frame of ICRS, FK4, FK5, or PrecessedGeocentric")
-                
+        else:
+            value = SkyCoord(value)
+            
         _posn = kls()
         _posn._astropy = value
         _posn._ra = value.ra.deg
-- 
2.43.0


From cfa3b53dfb709a40f02be567cdf5bedc8bbbdee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 148/202] fix: coherent dedispersion with a DM of zero divided
 by zero

---
 lsl/misc/dedispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/dedispersion.py b/lsl/misc/dedispersion.py
index 654acd6..b10798b 100644
--- a/lsl/misc/dedispersion.py
+++ b/lsl/misc/dedispersion.py
@@ -105,7 +105,7 @@ def get_coherent_sample_size(central_freq, sample_rate, dm):
     BW = sample_rate
 
     delayBand = dm*_D *((1e6/(F0-BW/2.0))**2 - (1e6/(F0+BW/2.0))**2)	# Dispersion delay across the band
-    samples = delayBand*BW									# Conversion to samples
+    samples = max([delayBand*BW, 1.0])						# Conversion to samples, at least one
     samples = 2**(np.ceil(np.log(samples)/np.log(2)))		# Conversion to next largest power of 2
     samples *= 2											# Correction for the 'wings' of the convolution
     
-- 
2.43.0


From 24fbae9203705a00fdbd6cdbe1ec710765f423af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 149/202] fix: coherent dedispersion left the end of some
 blocks as zeros

---
 lsl/misc/dedispersion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/dedispersion.py b/lsl/misc/dedispersion.py
index b10798b..12e136d 100644
--- a/lsl/misc/dedispersion.py
+++ b/lsl/misc/dedispersion.py
@@ -198,7 +198,8 @@ def coherent(t, timeseries, central_freq, sample_rate, dm, taper=False, previous
         raise RuntimeWarning("Too few data samples for proper dedispersion")
         
     # Go!
-    for i in range(2*nSets+1):
+    nBlocks = max([2*nSets+1, -(-timeseries.size // (N//2))])
+    for i in range(nBlocks):
         start = N//2*i - N//4
         stop = start + N
         
@@ -254,7 +255,7 @@ def coherent(t, timeseries, central_freq, sample_rate, dm, taper=False, previous
             
         if i == 0 and previous_data is None:
             continue
-        if i == (2*nSets) and next_data is None:
+        if i >= (2*nSets) and next_data is None:
             continue
             
         outT[outStart:outStop] = timeOut[dataStart:dataStop]
-- 
2.43.0


From e5f5e31bc2cde12fe015a6ef281054000542d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 150/202] fix: incoherent dedispersion of a single channel
 failed

---
 lsl/misc/dedispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/dedispersion.py b/lsl/misc/dedispersion.py
index 12e136d..eddf228 100644
--- a/lsl/misc/dedispersion.py
+++ b/lsl/misc/dedispersion.py
@@ -78,7 +78,7 @@ def incoherent(freq, waterfall, tInt, dm, boundary='wrap', fill_value=np.nan):
     tDelay = delay(freq, dm)
     
     # Convert the delays to integration periods
-    tDelay = np.round(tDelay / tInt)
+    tDelay = np.round(np.atleast_1d(tDelay) / tInt)
     tDelay = tDelay.astype(np.int32)
     
     # Roll the various frequency bins by the right amount
-- 
2.43.0


From 3f7b2f5fcdfb6f15ce493b70d9f1353b354b045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 151/202] fix: smooth() dropped a sample of data as long as the
 window

---
 lsl/misc/mathutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/mathutils.py b/lsl/misc/mathutils.py
index 6cbb940..4594022 100644
--- a/lsl/misc/mathutils.py
+++ b/lsl/misc/mathutils.py
@@ -144,7 +144,7 @@ def smooth(x, window_len=10, window='hanning'):
     if not window in ['flat', 'hanning', 'hamming', 'bartlett', 'blackman']:
         raise ValueError("Window is on of 'flat', 'hanning', 'hamming', 'bartlett', 'blackman'")
         
-    s = np.r_[2*x[0]-x[window_len:1:-1],x,2*x[-1]-x[-1:-window_len:-1]]
+    s = np.r_[2*x[0]-x[window_len-1:0:-1],x,2*x[-1]-x[-1:-window_len:-1]]
     #print(len(s))
     if window == 'flat': #moving average
         w = np.ones(window_len, dtype=s.dtype)
-- 
2.43.0


From c8dcbd021fb6d4ee3b570f4e87b4fee26b1fe9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 152/202] fix: ndft() truncated the frequencies for integer
 times

---
 lsl/misc/mathutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/mathutils.py b/lsl/misc/mathutils.py
index 4594022..62a15c2 100644
--- a/lsl/misc/mathutils.py
+++ b/lsl/misc/mathutils.py
@@ -262,7 +262,7 @@ def ndft(t, x):
         out[m] = s
         
     # Create the output frequency array and fill it
-    f = np.zeros_like(t)
+    f = np.zeros(t.shape, dtype=np.result_type(t.dtype, np.float32))
     for m in range(out.size):
         mPrime = out.size//2 - m
         f[m] = mPrime / (t.max() - t.min())
-- 
2.43.0


From 5b51a478a706dbd399930c7d0b398b91d08bb4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 153/202] fix: gaussparams() failed for 2-D integer data

---
 lsl/misc/mathutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/mathutils.py b/lsl/misc/mathutils.py
index 62a15c2..5f77b42 100644
--- a/lsl/misc/mathutils.py
+++ b/lsl/misc/mathutils.py
@@ -335,9 +335,9 @@ def gaussparams(data, x=None, y=None):
             
         # Break the problem down into two 1-D filts
         profileX = data.sum(axis=1)
-        profileX *= height/profileX.max()
+        profileX = profileX*height/profileX.max()
         profileY = data.sum(axis=0)
-        profileY *= height/profileY.max()
+        profileY = profileY*height/profileY.max()
         
         hx, centerX, widthX = gaussparams(profileX, x[:,0])
         hy, centerY, widthY = gaussparams(profileY, y[0,:])
-- 
2.43.0


From f6b171975e2775c1756d10c31bc7396b8cf51b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 154/202] fix: the half-sample mode ignored half samples at the
 top, and failed on repeated values

---
 lsl/statistics/robust.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index 61677c3..84894e8 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -173,14 +173,15 @@ def mode(inputData, axis=None, dtype=None):
                 i2 = data[2] - data[1]
                 if i1 < i2:
                     return data[:2].mean()
-                elif i2 > i1:
+                elif i2 < i1:
                     return data[1:].mean()
                 else:
                     return data[1]
             else:
                 wMin = data[-1] - data[0]
                 N = data.size // 2 + data.size % 2 
-                for i in range(0, N):
+                j = 0
+                for i in range(0, data.size-N+1):
                     w = data[i+N-1] - data[i] 
                     if w < wMin:
                         wMin = w
-- 
2.43.0


From 277f8b6da879de5354321448480ed7d6bebee10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 155/202] fix: modes of integers along an axis were truncated

---
 lsl/statistics/robust.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index 84894e8..3e2b70a 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -165,7 +165,7 @@ def mode(inputData, axis=None, dtype=None):
         # Create the function that we can use for the half-sample mode
         def _hsm(data):
             if data.size == 1:
-                return data[0]
+                return data[:1].mean()
             elif data.size == 2:
                 return data.mean()
             elif data.size == 3:
@@ -176,7 +176,7 @@ def mode(inputData, axis=None, dtype=None):
                 elif i2 < i1:
                     return data[1:].mean()
                 else:
-                    return data[1]
+                    return data[1:2].mean()
             else:
                 wMin = data[-1] - data[0]
                 N = data.size // 2 + data.size % 2 
-- 
2.43.0


From eb20d92944e3941218852d5289eb29a3b4ca6f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 156/202] fix: robust polynomial fits of order zero left out
 the mean

---
 lsl/statistics/robust.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index 3e2b70a..01c6ad0 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -488,7 +488,9 @@ def linefit(inputX, inputY, max_iter=25, bisector=False, bisquare_limit=6.0, clo
 def __polyfit_rescale(coeffs, x0, y0):
     order = len(coeffs)-1
     
-    if order == 1:
+    if order == 0:
+        coeffs[0] = coeffs[0] + y0
+    elif order == 1:
         coeffs[0] = coeffs[0]-coeffs[1]*x0 + y0
     elif order == 2:
         coeffs[0] = coeffs[0]-coeffs[1]*x0+coeffs[2]*x0**2 + y0
-- 
2.43.0


From 8b85d722d5556ca31b2d5584af7ff76d6b19d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 157/202] fix: robust fits of masked arrays without a mask
 failed

---
 lsl/statistics/robust.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index 01c6ad0..d9378a2 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -317,7 +317,7 @@ def linefit(inputX, inputY, max_iter=25, bisector=False, bisquare_limit=6.0, clo
     xIn = inputX.ravel()
     yIn = inputY.ravel()
     if type(yIn).__name__ == "MaskedArray":
-        xIn = xIn.compress(np.logical_not(yIn.mask))
+        xIn = xIn.compress(np.logical_not(np.ma.getmaskarray(yIn)))
         yIn = yIn.compressed()
     n = len(xIn)
     
@@ -524,7 +524,7 @@ def polyfit(inputX, inputY, order, max_iter=25):
     x = inputX.ravel()
     y = inputY.ravel()
     if type(y).__name__ == "MaskedArray":
-        x = x.compress(np.logical_not(y.mask))
+        x = x.compress(np.logical_not(np.ma.getmaskarray(y)))
         y = y.compressed()
     n = len(x)
     
-- 
2.43.0


From cc305ef705630225c089b5fbde30f50371d3c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 158/202] fix: robust fits of many points with few good ones
 used an undefined name

---
 lsl/statistics/robust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index d9378a2..d34ba97 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -549,7 +549,7 @@ def polyfit(inputX, inputY, order, max_iter=25):
         cc = npp_polyfit(u, v, order)
         yFit = npp_polyval(u, cc)
     else:
-        lsqfit = 0
+        lsqFit = 0
         q = np.argsort(u)
         u = u[q]
         v = v[q]
-- 
2.43.0


From 00a77c2427a718af6b9cde1e65352ada0e510f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 159/202] fix: spectral kurtosis along other axes used the
 wrong number of points

---
 lsl/statistics/kurtosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/statistics/kurtosis.py b/lsl/statistics/kurtosis.py
index f1f76c4..a34a5c8 100644
--- a/lsl/statistics/kurtosis.py
+++ b/lsl/statistics/kurtosis.py
@@ -160,7 +160,7 @@ def spectral_power(x, N=1, axis=None):
     should be ~1.
     """
     
-    M = len(x)
+    M = x.size if axis is None else x.shape[axis]
     
     k = M*(x**2).sum(axis=axis)/(x.sum(axis=axis))**2 - 1.0
     k *= (M*N+1)/(M-1)
-- 
2.43.0


From e2af292ab8598d0bdaff3d31f440d67809d25d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 160/202] fix: spectral kurtosis limits that fail left NumPy
 raising floating point errors

---
 lsl/statistics/kurtosis.py | 40 +++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/lsl/statistics/kurtosis.py b/lsl/statistics/kurtosis.py
index a34a5c8..14dffd9 100644
--- a/lsl/statistics/kurtosis.py
+++ b/lsl/statistics/kurtosis.py
@@ -110,34 +110,30 @@ def get_limits(sigma, M, N=1):
     """
     
     # Adjust the NumPy error levels so that we know when ppf() may be suspect
-    errLevels = np.geterr()
-    np.seterr(all='raise')
+    with np.errstate(all='raise'):
     
-    # Convert the sigma to a fraction for the high and low clip levels
-    percentClip = ( 1.0 - erf(sigma/np.sqrt(2)) ) / 2.0
+        # Convert the sigma to a fraction for the high and low clip levels
+        percentClip = ( 1.0 - erf(sigma/np.sqrt(2)) ) / 2.0
     
-    # Build the Pearson type VI distribution function - parameters then instance
-    a = _alpha(M, N)
-    b = _beta(M, N)
-    d = _delta(M, N)
+        # Build the Pearson type VI distribution function - parameters then instance
+        a = _alpha(M, N)
+        b = _beta(M, N)
+        d = _delta(M, N)
     
-    rv = betaprime(a, b, loc=d)
+        rv = betaprime(a, b, loc=d)
     
-    # Try to get a realistic lower limit, giving up if we hit an overflow error
-    try:
-        lower = rv.ppf(percentClip)
-    except FloatingPointError:
-        lower = mean(M, N) - sigma*std(M, N)
+        # Try to get a realistic lower limit, giving up if we hit an overflow error
+        try:
+            lower = rv.ppf(percentClip)
+        except FloatingPointError:
+            lower = mean(M, N) - sigma*std(M, N)
         
-    # Try to get a realistic upper limit, giving up if we hit an overflow error
-    try:
-        upper = rv.ppf(1.0-percentClip)
-    except FloatingPointError:
-        upper = mean(M, N) + sigma*std(M, N)
+        # Try to get a realistic upper limit, giving up if we hit an overflow error
+        try:
+            upper = rv.ppf(1.0-percentClip)
+        except FloatingPointError:
+            upper = mean(M, N) + sigma*std(M, N)
         
-    # Restore the NumPy error levels
-    np.seterr(**errLevels)
-    
     return lower, upper
 
 
-- 
2.43.0


From de770f63e6c55edad5855b41af757c8e3bae7bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 161/202] fix: the descattered profile was lost for times that
 start at zero

---
 lsl/misc/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/scattering.py b/lsl/misc/scattering.py
index 13b08bd..c9d0700 100644
--- a/lsl/misc/scattering.py
+++ b/lsl/misc/scattering.py
@@ -232,7 +232,7 @@ def unscatter(t, raw, tScatMin, tScatMax, tScatStep, gain=0.05, max_iter=10000,
     
     # Restore the profile using a Gaussian with a sigma value of 5 time steps
     sigmaRestore = 5*(t[1]-t[0])
-    restoreFunction = np.exp(-t**2 / (2*sigmaRestore**2))
+    restoreFunction = np.exp(-(t-t[(t.size-1)//2])**2 / (2*sigmaRestore**2))
     restoreFunction /= restoreFunction.sum()
     out = np.convolve(cc, restoreFunction, 'same')
     
-- 
2.43.0


From 5a3501a7f188a85cc4e4ad97fa70ff33419c51ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 162/202] fix: a scattering search without a solution failed on
 a KeyError

---
 lsl/misc/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/scattering.py b/lsl/misc/scattering.py
index c9d0700..3a4b34e 100644
--- a/lsl/misc/scattering.py
+++ b/lsl/misc/scattering.py
@@ -214,7 +214,7 @@ def unscatter(t, raw, tScatMin, tScatMax, tScatStep, gain=0.05, max_iter=10000,
             bestTau = tScat
             
     # Make sure we have something to report
-    if tScat is None:
+    if bestTau is None:
         raise RuntimeError("No good solution found, consider changing the search range.")
         
     # Select out what we need, i.e., the best
-- 
2.43.0


From d40b9b8d7a90b6a9d16d84e2df73566a43a7b382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:24 +0000
Subject: [PATCH 163/202] fix: VDIF frames at the start of a second could be
 put at the end of the one before

---
 lsl/writer/vdif.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lsl/writer/vdif.py b/lsl/writer/vdif.py
index 596137a..42299a7 100644
--- a/lsl/writer/vdif.py
+++ b/lsl/writer/vdif.py
@@ -89,13 +89,20 @@ class Frame(object):
         # Seconds since the VDIF epoch
         self.epoch = 2*(curEpoch.ymdhms[0] - 2000) + (curEpoch.ymdhms[1] > 6)
         epochSeconds = curEpoch - AstroTime(f"{curEpoch.ymdhms[0]}-{(curEpoch.ymdhms[1]//7)*6+1}-1 00:00:00", format='iso', scale='utc')
+        # Frames per second
+        frameRate = self.sample_rate/(len(self.data)//(2-self.dataReal))
         # Integer seconds
         self.seconds = int(epochSeconds.sec)
         
         # Compute the frames since the beginning of the second
-        frame = (epochSeconds.sec - self.seconds) * (self.sample_rate/(len(self.data)//(2-self.dataReal)))
+        frame = (epochSeconds.sec - self.seconds) * frameRate
         self.frame = int(round(frame))
         
+        # Rounding may take us to the next second
+        if self.frame >= frameRate:
+            self.seconds += 1
+            self.frame = 0
+        
     def create_raw_frame(self):
         """
         Using the data and information stored in the object, create a
-- 
2.43.0


From e37b4b52d6896c8fcce62488d3832f37d739133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:24 +0000
Subject: [PATCH 164/202] fix: SDFITS code -4 is LR

---
 lsl/writer/sdfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/writer/sdfits.py b/lsl/writer/sdfits.py
index 0de1136..b018390 100644
--- a/lsl/writer/sdfits.py
+++ b/lsl/writer/sdfits.py
@@ -39,7 +39,7 @@ STOKES_CODES = { 'I':  1,  'Q': 2,   'U':  3,  'V':  4,
                 'XX': -5, 'YY': -6, 'XY': -7, 'YX': -8}
 
 NUMERIC_STOKES = { 1: 'I',   2: 'Q',   3: 'U',   4: 'V', 
-                  -1: 'RR', -2: 'LL', -3: 'RL', -4: 'RL', 
+                  -1: 'RR', -2: 'LL', -3: 'RL', -4: 'LR', 
                   -5: 'XX', -6: 'YY', -7: 'XY', -8: 'YX'}
 
 
-- 
2.43.0


From 6981a4f05fc24146c835a598bbc8e0ae9b8ec6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:24 +0000
Subject: [PATCH 165/202] fix: SDFITS files mixed up the polarizations of short
 integrations

---
 lsl/writer/sdfits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/writer/sdfits.py b/lsl/writer/sdfits.py
index b018390..28aa488 100644
--- a/lsl/writer/sdfits.py
+++ b/lsl/writer/sdfits.py
@@ -160,8 +160,8 @@ class Sd(WriterBase):
             polarization code.
             """
             
-            xID = x.obsTime*10000000 + abs(x.pol)
-            yID = y.obsTime*10000000 + abs(y.pol)
+            xID = (x.obsTime, abs(x.pol))
+            yID = (y.obsTime, abs(y.pol))
             
             if xID > yID:
                 return 1
-- 
2.43.0


From eb9210030af6ed61ebc0665bd8caa3cdac61d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:54 +0000
Subject: [PATCH 166/202] fix: simulated DRX tones jumped in phase from one
 frame to the next

---
 lsl/sim/ndp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/sim/ndp.py b/lsl/sim/ndp.py
index 3356f83..25ceb23 100644
--- a/lsl/sim/ndp.py
+++ b/lsl/sim/ndp.py
@@ -49,7 +49,7 @@ def _basic_drx(fh, stands, nframes, **kwargs):
         if i % 1000 == 0:
             LSL_LOGGER.debug(f" frame {i}")
         t = int(start_time*ndp_common.fS) + int(i*ndp_common.fS*samplesPerFrame/sample_rate)
-        tFrame = t/ndp_common.fS - start_time + np.arange(samplesPerFrame, dtype=np.float32) / sample_rate
+        tFrame = (i*samplesPerFrame + np.arange(samplesPerFrame)) / sample_rate
         for beam in beams:
             for tune in range(1, ntuning+1):
                 for pol in (0, 1):
-- 
2.43.0


From 7bc53931d7658eea1d7154b8ee9757d403e08d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:54 +0000
Subject: [PATCH 167/202] fix: a DRX frame with an impossible time offset was
 written as if valid

---
 lsl/sim/drx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/sim/drx.py b/lsl/sim/drx.py
index 6b9c0a0..739ad43 100644
--- a/lsl/sim/drx.py
+++ b/lsl/sim/drx.py
@@ -184,6 +184,8 @@ class SimFrame(drx.Frame):
 
         # Is the time offset reasonable?
         if self.header.time_offset >= fS:
+            if raise_errors:
+                raise ValueError(f"Invalid time offset: '{self.header.time_offset}'")
             return False
 
         beam, tune, pol = self.id
-- 
2.43.0


From fdada32c2c42df13de082e182252140a4774bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:54 +0000
Subject: [PATCH 168/202] fix: SDFITS scan numbers overflowed beyond 32767
 scans

---
 lsl/writer/sdfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/writer/sdfits.py b/lsl/writer/sdfits.py
index 28aa488..4cf4d3a 100644
--- a/lsl/writer/sdfits.py
+++ b/lsl/writer/sdfits.py
@@ -284,7 +284,7 @@ class Sd(WriterBase):
                 rawList = []
         
         # Scan number
-        c1  = astrofits.Column(name='SCAN', format='1I', 
+        c1  = astrofits.Column(name='SCAN', format='1J', 
                         array=np.array(scanList))
         ## Cycle
         #c2 = astrofits.Column(name='CYCLE', format='1J', 
-- 
2.43.0


From 1a11f9140efce7645dacfebb4bc5281fd6c649ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:31 +0000
Subject: [PATCH 169/202] fix: DRX frames lost their tuning word when they were
 written back out

---
 lsl/sim/drx.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/lsl/sim/drx.py b/lsl/sim/drx.py
index 739ad43..37cbe0b 100644
--- a/lsl/sim/drx.py
+++ b/lsl/sim/drx.py
@@ -59,15 +59,18 @@ def frame_to_frame(drx_frame):
     rawFrame[21] = (drx_frame.payload.timetag>>16) & 255
     rawFrame[22] = (drx_frame.payload.timetag>>8) & 255
     rawFrame[23] = drx_frame.payload.timetag & 255
-    ## Flags
-    rawFrame[24] = (drx_frame.payload.flags>>56) & 255
-    rawFrame[25] = (drx_frame.payload.flags>>48) & 255
-    rawFrame[26] = (drx_frame.payload.flags>>40) & 255
-    rawFrame[27] = (drx_frame.payload.flags>>32) & 255
-    rawFrame[28] = (drx_frame.payload.flags>>24) & 255
-    rawFrame[29] = (drx_frame.payload.flags>>16) & 255
-    rawFrame[30] = (drx_frame.payload.flags>>8) & 255
-    rawFrame[31] = drx_frame.payload.flags & 255
+    ## Tuning word (if there is one) and flags
+    flags = drx_frame.payload.flags
+    if drx_frame.payload.tuning_word is not None:
+        flags |= (drx_frame.payload.tuning_word << 32)
+    rawFrame[24] = (flags>>56) & 255
+    rawFrame[25] = (flags>>48) & 255
+    rawFrame[26] = (flags>>40) & 255
+    rawFrame[27] = (flags>>32) & 255
+    rawFrame[28] = (flags>>24) & 255
+    rawFrame[29] = (flags>>16) & 255
+    rawFrame[30] = (flags>>8) & 255
+    rawFrame[31] = flags & 255
     ## Data
     if drx_frame.payload.data.dtype == CI8:
         i = drx_frame.payload.data['re'].copy()
-- 
2.43.0


From 75f2ec13df6ba52cf10a46620546dcb9ec6f594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:23 +0000
Subject: [PATCH 170/202] fix: amplitude self-calibration compounded its gains
 and left them out of the data

---
 lsl/imaging/selfcal.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/lsl/imaging/selfcal.py b/lsl/imaging/selfcal.py
index af2ee0c..42705cd 100644
--- a/lsl/imaging/selfcal.py
+++ b/lsl/imaging/selfcal.py
@@ -307,6 +307,8 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
     
     origSet = dataSet
     
+    ampConverged = not amplitude
+    phsConverged = not (phase_only or delay_only or delay_and_phase)
     converged = False
     tempGains = np.ones(N)
     tempDelays = np.zeros(N)
@@ -341,13 +343,13 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
             tempGains *= bestGains
             
             valid = np.where( np.abs(bestGains) < 1e6 )[0]
-            metric = (np.abs(bestGains[valid])).max()
+            metric = np.maximum(np.abs(bestGains[valid]), 1/np.abs(bestGains[valid])).max()
             LSL_LOGGER.debug(f'    {metric}')
             if metric < amplitude_cutoff:
                 amplitude = False
-                converged = True
+                ampConverged = True
                 
-            dataSet = _scale_data(origSet, tempGains, np.zeros_like(tempGains), np.zeros_like(tempGains))
+            dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
         #
         # Delay and/or phase
@@ -382,9 +384,9 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
             LSL_LOGGER.debug(f'    {metric}')
             if metric < phase_cutoff:
                 phase_only = False
-                converged = True
+                phsConverged = True
                 
-            dataSet = _scale_data(origSet, np.ones_like(tempPhaseOffsets), np.zeros_like(tempPhaseOffsets), tempPhaseOffsets)
+            dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
         elif delay_only:
             LSL_LOGGER.debug(f'  {i+1}D')
@@ -416,9 +418,9 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
             LSL_LOGGER.debug(f'    {metric}')
             if metric < delay_cutoff:
                 delay_only = False
-                converged = True
+                phsConverged = True
                 
-            dataSet = _scale_data(origSet, np.ones_like(tempDelays), tempDelays, np.zeros_like(tempDelays))
+            dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
         elif delay_and_phase:
             LSL_LOGGER.debug(f'  {i+1}D+P')
@@ -446,7 +448,7 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
             bestDelays = np.array(bestDelays)
             tempDelays += loop_gain*bestDelays
             
-            dataSet = _scale_data(origSet, np.ones_like(tempDelays), tempDelays, tempPhaseOffsets)
+            dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
             ## Then phase
             A = _build_phase_a(aa, dataSet, simSet, chan, pol, ref_ant=ref_ant)
@@ -477,13 +479,15 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
             LSL_LOGGER.debug(f'    {metric1} {metric2}')
             if metric1 < delay_cutoff and metric2 < phase_cutoff:
                 delay_and_phase = False
-                converged = True
+                phsConverged = True
                 
-            dataSet = _scale_data(origSet, np.ones_like(tempDelays), tempDelays, tempPhaseOffsets)
+            dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
         else:
             pass
             
+        converged = ampConverged and phsConverged
+        
     # Did we converge?
     if converged:
         LSL_LOGGER.info('Fit converged')
-- 
2.43.0


From f2c7d4aab59729c0b7558fae87600648b3a394a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:23 +0000
Subject: [PATCH 171/202] fix: auto-correlations were misread as baselines in
 self-calibration

---
 lsl/imaging/selfcal.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lsl/imaging/selfcal.py b/lsl/imaging/selfcal.py
index 42705cd..be3cd12 100644
--- a/lsl/imaging/selfcal.py
+++ b/lsl/imaging/selfcal.py
@@ -72,8 +72,8 @@ def _build_amplitude_a(aa, dataSet, simSet, chan, pol, ref_ant=0):
     
     A = np.zeros((nBLs, nStands))
     for i,(l,m) in enumerate(dataSet.baselines):
-        A[i,l] = 1.0
-        A[i,m] = 1.0
+        A[i,l] += 1.0
+        A[i,m] += 1.0
         
     return A
 
@@ -129,16 +129,16 @@ def _build_phase_a(aa, dataSet, simSet, chan, pol, ref_ant=0):
     for i in range(fq.size):
         for j,(l,m) in enumerate(dataSet.baselines):
             if l < ref_ant:
-                A[j+i*nBLs,l]   =  1.0
+                A[j+i*nBLs,l]   += 1.0
             elif l > ref_ant:
-                A[j+i*nBLs,l-1] =  1.0
+                A[j+i*nBLs,l-1] += 1.0
             else:
                 pass
                 
             if m < ref_ant:
-                A[j+i*nBLs,m]   = -1.0
+                A[j+i*nBLs,m]   -= 1.0
             elif m > ref_ant:
-                A[j+i*nBLs,m-1] = -1.0
+                A[j+i*nBLs,m-1] -= 1.0
             else:
                 pass
         
@@ -194,16 +194,16 @@ def _build_delay_a(aa, dataSet, simSet, chan, pol, ref_ant=0):
     for i in range(fq.size):
         for j,(l,m) in enumerate(dataSet.baselines):
             if l < ref_ant:
-                A[j+i*nBLs,l]   =  1
+                A[j+i*nBLs,l]   += 1
             elif l > ref_ant:
-                A[j+i*nBLs,l-1] =  1
+                A[j+i*nBLs,l-1] += 1
             else:
                 pass
                 
             if m < ref_ant:
-                A[j+i*nBLs,m]   = -1
+                A[j+i*nBLs,m]   -= 1
             elif m > ref_ant:
-                A[j+i*nBLs,m-1] = -1
+                A[j+i*nBLs,m-1] -= 1
             else:
                 pass
         
-- 
2.43.0


From 1e6acf7a092fc9575afde2005cb58105bcbe0747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:30 +0000
Subject: [PATCH 172/202] fix: CLEANed sources were displaced by one pixel in
 each axis

---
 lsl/imaging/deconv.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/lsl/imaging/deconv.py b/lsl/imaging/deconv.py
index 85a5be3..51cca6d 100644
--- a/lsl/imaging/deconv.py
+++ b/lsl/imaging/deconv.py
@@ -119,6 +119,17 @@ def _fit_gaussian(data):
     return params
 
 
+def _restore(components, beam):
+    """
+    Convolve a map of components with a restoring beam that is centered on
+    pixel (beam.shape[0]//2, beam.shape[1]//2).
+    """
+    
+    # For an even number of pixels fftconvolve() has the center one pixel earlier
+    beam = beam[1-beam.shape[0]%2:,1-beam.shape[1]%2:]
+    return convolve(components, beam, mode='same')
+
+
 @telemetry.track_function
 def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='XX', chan=None, gain=0.2, max_iter=150, sigma=3.0, plot=False):
     """
@@ -186,7 +197,7 @@ def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='X
     beamCutout = psf[size//2:3*size//2, size//2:3*size//2]
     beamCutout = np.where( beamCutout > 0.0, beamCutout, 0.0 )
     h, cx, cy, sx, sy = _fit_gaussian( beamCutout )
-    gauGen = gaussian2d(1.0, size/2+cx, size/2+cy, sx, sy)
+    gauGen = gaussian2d(1.0, imgSize//2, imgSize//2, sx, sy)
     FWHM = int( round( (sx+sy)/2.0 * 2.0*np.sqrt(2.0*np.log(2.0)) ) )
     beamClean = psf * 0.0
     for i in range(beamClean.shape[0]):
@@ -305,7 +316,7 @@ def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='X
             pylab.title('CLEAN Comps.')
             
             pylab.subplot(2, 2, 4)
-            pylab.imshow(convolve(cleaned, beamClean, mode='same'), origin='lower')
+            pylab.imshow(_restore(cleaned, beamClean), origin='lower')
             
             pylab.draw()
             
@@ -318,7 +329,7 @@ def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='X
     LSL_LOGGER.info(f"Exited after {i+1} iterations with status '{exitStatus}'")
 
     # Restore
-    conv = convolve(cleaned, beamClean, mode='same')
+    conv = _restore(cleaned, beamClean)
     conv = np.ma.masked_array(conv, mask=convMask, dtype=conv.dtype)
     conv *= ((img-working).max() / conv.max())
 
@@ -429,7 +440,7 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
     beamCutout = psf[size//2:3*size//2, size//2:3*size//2]
     beamCutout = np.where( beamCutout > 0.0, beamCutout, 0.0 )
     h, cx, cy, sx, sy = _fit_gaussian( beamCutout )
-    gauGen = gaussian2d(1.0, size/2+cx, size/2+cy, sx, sy)
+    gauGen = gaussian2d(1.0, imgSize//2, imgSize//2, sx, sy)
     FWHM = int( round( (sx+sy)/2.0 * 2.0*np.sqrt(2.0*np.log(2.0)) ) )
     beamClean = psf * 0.0
     for i in range(beamClean.shape[0]):
@@ -589,7 +600,7 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
                     pylab.title('Removed')
                     
                     pylab.subplot(2, 2, 4)
-                    pylab.imshow(convolve(cleaned, beamClean, mode='same')[px0:px1,py0:py1], origin='lower', interpolation='nearest')
+                    pylab.imshow(_restore(cleaned, beamClean)[px0:px1,py0:py1], origin='lower', interpolation='nearest')
                     pylab.title('CLEAN Comps.')
                 except:
                     pass
@@ -609,7 +620,7 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
         LSL_LOGGER.info(f"Exited after {i+1} iterations with status '{exitStatus}'")
         
     # Restore
-    conv = convolve(cleaned, beamClean, mode='same')
+    conv = _restore(cleaned, beamClean)
     conv = np.ma.masked_array(conv, mask=convMask, dtype=conv.dtype)
     conv *= ((img-working).max() / conv.max())
     
@@ -731,7 +742,7 @@ def lsq(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='XX'
     beamCutout = psf[size//2:3*size//2, size//2:3*size//2]
     beamCutout = np.where( beamCutout > 0.0, beamCutout, 0.0 )
     h, cx, cy, sx, sy = _fit_gaussian( beamCutout )
-    gauGen = gaussian2d(1.0, size/2+cx, size/2+cy, sx, sy)
+    gauGen = gaussian2d(1.0, imgSize//2, imgSize//2, sx, sy)
     FWHM = int( round( (sx+sy)/2.0 * 2.0*np.sqrt(2.0*np.log(2.0)) ) )
     beamClean = psf * 0.0
     for i in range(beamClean.shape[0]):
@@ -863,7 +874,7 @@ def lsq(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='XX'
     # Summary
     LSL_LOGGER.info(f"Exited after {k+1} iterations with status '{exitStatus}'")
     # Restore
-    conv = convolve(mdl2, beamClean, mode='same')
+    conv = _restore(mdl2, beamClean)
     conv = np.ma.masked_array(conv, mask=convMask, dtype=conv.dtype)
     
     if plot:
-- 
2.43.0


From d884870181ae813d77526292a560ac7c03af21b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:30 +0000
Subject: [PATCH 173/202] fix: the CLEAN beam was fit off-center for uv
 resolutions other than 0.5

---
 lsl/imaging/deconv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/imaging/deconv.py b/lsl/imaging/deconv.py
index 51cca6d..0a336b5 100644
--- a/lsl/imaging/deconv.py
+++ b/lsl/imaging/deconv.py
@@ -194,7 +194,7 @@ def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='X
     psf /= psf.max()
     
     # Fit a Guassian to the zenith beam response and use that for the restore beam
-    beamCutout = psf[size//2:3*size//2, size//2:3*size//2]
+    beamCutout = psf[imgSize//4:3*imgSize//4, imgSize//4:3*imgSize//4]
     beamCutout = np.where( beamCutout > 0.0, beamCutout, 0.0 )
     h, cx, cy, sx, sy = _fit_gaussian( beamCutout )
     gauGen = gaussian2d(1.0, imgSize//2, imgSize//2, sx, sy)
@@ -437,7 +437,7 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
     psf /= psf.max()
     
     # Fit a Guassian to the zenith beam response and use that for the restore beam
-    beamCutout = psf[size//2:3*size//2, size//2:3*size//2]
+    beamCutout = psf[imgSize//4:3*imgSize//4, imgSize//4:3*imgSize//4]
     beamCutout = np.where( beamCutout > 0.0, beamCutout, 0.0 )
     h, cx, cy, sx, sy = _fit_gaussian( beamCutout )
     gauGen = gaussian2d(1.0, imgSize//2, imgSize//2, sx, sy)
@@ -739,7 +739,7 @@ def lsq(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='XX'
     psf /= psf.max()
     
     # Fit a Guassian to the zenith beam response and use that for the restore beam
-    beamCutout = psf[size//2:3*size//2, size//2:3*size//2]
+    beamCutout = psf[imgSize//4:3*imgSize//4, imgSize//4:3*imgSize//4]
     beamCutout = np.where( beamCutout > 0.0, beamCutout, 0.0 )
     h, cx, cy, sx, sy = _fit_gaussian( beamCutout )
     gauGen = gaussian2d(1.0, imgSize//2, imgSize//2, sx, sy)
-- 
2.43.0


From 313958b0b2c612a5d2d25733d40f0e20c4b12f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:30 +0000
Subject: [PATCH 174/202] fix: CLEAN failed for beams narrower than two pixels

---
 lsl/imaging/deconv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lsl/imaging/deconv.py b/lsl/imaging/deconv.py
index 0a336b5..d78ba66 100644
--- a/lsl/imaging/deconv.py
+++ b/lsl/imaging/deconv.py
@@ -199,6 +199,7 @@ def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='X
     h, cx, cy, sx, sy = _fit_gaussian( beamCutout )
     gauGen = gaussian2d(1.0, imgSize//2, imgSize//2, sx, sy)
     FWHM = int( round( (sx+sy)/2.0 * 2.0*np.sqrt(2.0*np.log(2.0)) ) )
+    FWHM = max([FWHM, 2])
     beamClean = psf * 0.0
     for i in range(beamClean.shape[0]):
         for j in range(beamClean.shape[1]):
@@ -442,6 +443,7 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
     h, cx, cy, sx, sy = _fit_gaussian( beamCutout )
     gauGen = gaussian2d(1.0, imgSize//2, imgSize//2, sx, sy)
     FWHM = int( round( (sx+sy)/2.0 * 2.0*np.sqrt(2.0*np.log(2.0)) ) )
+    FWHM = max([FWHM, 2])
     beamClean = psf * 0.0
     for i in range(beamClean.shape[0]):
         for j in range(beamClean.shape[1]):
@@ -744,6 +746,7 @@ def lsq(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='XX'
     h, cx, cy, sx, sy = _fit_gaussian( beamCutout )
     gauGen = gaussian2d(1.0, imgSize//2, imgSize//2, sx, sy)
     FWHM = int( round( (sx+sy)/2.0 * 2.0*np.sqrt(2.0*np.log(2.0)) ) )
+    FWHM = max([FWHM, 2])
     beamClean = psf * 0.0
     for i in range(beamClean.shape[0]):
         for j in range(beamClean.shape[1]):
-- 
2.43.0


From 0526a33fd7ce67390e642b5497dae872a97de98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:30 +0000
Subject: [PATCH 175/202] fix: CLEAN put components near 0h right ascension in
 the wrong place

---
 lsl/imaging/deconv.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lsl/imaging/deconv.py b/lsl/imaging/deconv.py
index d78ba66..889b3ff 100644
--- a/lsl/imaging/deconv.py
+++ b/lsl/imaging/deconv.py
@@ -46,6 +46,14 @@ def _interpolate(data, peak_x, peak_y):
     return dataPrime
 
 
+def _interpolate_angle(data, peak_x, peak_y):
+    """
+    Version of _interpolate() for angles in radians that wrap from 2 pi to 0.
+    """
+    
+    return np.angle(_interpolate(np.exp(1j*data), peak_x, peak_y)) % (2*np.pi)
+
+
 def _fit_gaussian(data):
     """
     Fit a 2D Gaussian to the provided data.  This function returns a
@@ -235,7 +243,7 @@ def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='X
         
         # Pixel coordinates to right ascension, dec.
         try:
-            peakRA = _interpolate(ra, peak_xO, peak_yO)
+            peakRA = _interpolate_angle(ra, peak_xO, peak_yO)
         except IndexError:
             peakRA = ra[peak_x, peak_y]
         try:
@@ -245,7 +253,7 @@ def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='X
             
         # Pixel coordinates to az, el
         try:
-            peakAz = _interpolate(az, peak_xO, peak_yO)
+            peakAz = _interpolate_angle(az, peak_xO, peak_yO)
         except IndexError:
             peakAz = az[peak_x, peak_y]
         try:
@@ -514,7 +522,7 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
             
             # Pixel coordinates to right ascension, dec.
             try:
-                peakRA = _interpolate(ra, peak_xO, peak_yO)
+                peakRA = _interpolate_angle(ra, peak_xO, peak_yO)
             except IndexError:
                 peak_xO, peak_yO = peak_x, peak_y
                 peakRA = ra[peak_x, peak_y]
@@ -525,7 +533,7 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
                 
             # Pixel coordinates to az, el
             try:
-                peakAz = _interpolate(az, peak_xO, peak_yO)
+                peakAz = _interpolate_angle(az, peak_xO, peak_yO)
             except IndexError:
                 peak_xO, peak_yO = peak_x, peak_y
                 peakAz = az[peak_x, peak_y]
-- 
2.43.0


From cf7d62c040521eb517d44f161dc9d57c6a7b718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:44 +0000
Subject: [PATCH 176/202] fix: the sub-pixel offsets of point sources were
 swapped between x and y

---
 lsl/imaging/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/analysis.py b/lsl/imaging/analysis.py
index fea6cfc..97767f6 100644
--- a/lsl/imaging/analysis.py
+++ b/lsl/imaging/analysis.py
@@ -164,7 +164,7 @@ def find_point_sources(image, threshold=4.0, fwhm=1.0, sharp=[0.2,1.0], round=[-
     # the detection radius
     ## Coordinate setup
     row = np.arange(nBox, dtype=np.float64) - nHalf
-    rx, ry = np.meshgrid(row, row)
+    rx, ry = np.meshgrid(row, row, indexing='ij')
     ## Build the mask
     mask = (rx**2 + ry**2) <= radius**2
     valid = np.where( mask )
-- 
2.43.0


From df1360c72e685a1c6f33e6885315de6746f1593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:44 +0000
Subject: [PATCH 177/202] fix: the image background was pulled toward zero in
 the corners

---
 lsl/imaging/analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/analysis.py b/lsl/imaging/analysis.py
index 97767f6..cc4a89d 100644
--- a/lsl/imaging/analysis.py
+++ b/lsl/imaging/analysis.py
@@ -9,7 +9,8 @@ Module for analyzing images.  Currently, this module supports:
 import math
 import logging
 import numpy as np
-from scipy.signal import convolve, medfilt
+from scipy.signal import convolve
+from scipy.ndimage import median_filter
 from scipy.interpolate import bisplrep, bisplev
 
 from lsl.logger import LSL_LOGGER
@@ -87,7 +88,7 @@ def estimate_background(image, window=32):
     backgroundBasis[bad] = np.median(backgroundBasis[good])
     
     # Use a median filter to get rid of unusually high regions
-    backgroundBasis = medfilt(backgroundBasis, 3)
+    backgroundBasis = median_filter(backgroundBasis, 3, mode='nearest')
     
     # Build up the interpolation function
     backgroundX, backgroundY = backgroundX.ravel(), backgroundY.ravel()
-- 
2.43.0


From c0d62068b9907d27d07ef32968dee14cabf40962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:44 +0000
Subject: [PATCH 178/202] fix: a flat image had a background of NaN

---
 lsl/imaging/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/analysis.py b/lsl/imaging/analysis.py
index cc4a89d..157af5d 100644
--- a/lsl/imaging/analysis.py
+++ b/lsl/imaging/analysis.py
@@ -65,13 +65,13 @@ def estimate_background(image, window=32):
             ## Compute the mean and standard deviation - both with and
             ## without progressive clipping
             m0, s0 = np.mean(tile), np.std(tile)
-            valid = np.where( np.abs(tile-m0) < 3*s0 )
+            valid = np.where( np.abs(tile-m0) <= 3*s0 )
             m1, s1 = np.mean(tile[valid]), np.std(tile[valid])
             
             ## If the standard deviation hasn't changed by more than 20% use
             ## it's an uncrowded field and we can use the clipped mean.  Other-
             ## wise estimate the mode.
-            if abs(s1-s0)/s0 <= 0.2:
+            if abs(s1-s0) <= 0.2*s0:
                 backgroundBasis[i,j] = m1
             else:
                 ### This is SExtractor specific and is a correction for the 
-- 
2.43.0


From 2491a07777643fb8d1f706c9cbdbb01904dea8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:40 +0000
Subject: [PATCH 179/202] fix: images with an odd number of pixels were
 centered one pixel off

---
 lsl/imaging/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 3fb90f2..9083fa3 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1428,6 +1428,14 @@ class ImgWPlus(aipy.img.ImgW):
         im_res = 360/np.pi * np.arcsin(1/self.size/2)
         return im_res * np.pi/180
         
+    def get_LM(self, center=(0,0)):
+        """
+        Get the (l,m) image coordinates for an inverted UV matrix, with the 0,0 
+        point moved to 'center'.
+        """
+        
+        return aipy.img.ImgW.get_LM(self, center=(-center[0], -center[1]))
+        
     def _gen_img(self, data, center=(0,0), weighting='natural', robust=0.0, taper=(0.0, 0.0)):
         """
         Return the inverse FFT of the provided data, with the 0,0 point 
@@ -1491,7 +1499,7 @@ class ImgWPlus(aipy.img.ImgW):
                 
             data = data*taper1*taper2
             
-        return aipy.img.recenter(ifft2Function(data).real.astype(np.float32)/self.kern_corr, center)
+        return aipy.img.recenter(ifft2Function(data).real.astype(np.float32)/self.kern_corr, (-center[0], -center[1]))
         
     def image(self, center=(0,0), weighting='natural', robust=0.0, taper=(0.0, 0.0)):
         """Return the inverse FFT of the UV matrix, with the 0,0 point moved
-- 
2.43.0


From 1d83fa869b07fb0a20cfa5d2c37f3580e2327d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:32 +0000
Subject: [PATCH 180/202] fix: CLEAN failed or wandered off for peaks near the
 edge of the sky

---
 lsl/imaging/deconv.py | 86 ++++++++++++++++++++++++++++---------------
 1 file changed, 56 insertions(+), 30 deletions(-)

diff --git a/lsl/imaging/deconv.py b/lsl/imaging/deconv.py
index 889b3ff..faec582 100644
--- a/lsl/imaging/deconv.py
+++ b/lsl/imaging/deconv.py
@@ -26,23 +26,24 @@ __all__ = ['clean', 'clean_sources', 'lsq']
 
 
 def _interpolate(data, peak_x, peak_y):
-    x1 = int(peak_x)
-    x2 = x1 + 1
-    y1 = int(peak_y)
-    y2 = y1 + 1
-    
-    x = peak_x
-    if x < 0:
+    if peak_x < 0:
         raise IndexError("Invalid x")
-    y = peak_y
-    if y < 0:
+    if peak_y < 0:
         raise IndexError("Invalid y")
         
-    dataPrime  = data[x1,y1]*(x2-x)*(y2-y)
-    dataPrime += data[x2,y1]*(x-x1)*(y2-y)
-    dataPrime += data[x1,y2]*(x2-x)*(y-y1)
-    dataPrime += data[x2,y2]*(x-x1)*(y-y1)
-    dataPrime /= (x2-x1)*(y2-y1)
+    # Only use the neighboring pixels if they contribute since they may be off
+    # of the image or the sky
+    x1 = int(peak_x)
+    x = peak_x - x1
+    x2 = x1 + 1 if x > 0 else x1
+    y1 = int(peak_y)
+    y = peak_y - y1
+    y2 = y1 + 1 if y > 0 else y1
+    
+    dataPrime  = data[x1,y1]*(1-x)*(1-y)
+    dataPrime += data[x2,y1]*x*(1-y)
+    dataPrime += data[x1,y2]*(1-x)*y
+    dataPrime += data[x2,y2]*x*y
     return dataPrime
 
 
@@ -138,6 +139,26 @@ def _restore(components, beam):
     return convolve(components, beam, mode='same')
 
 
+def _optimize_peak(image, peak_x, peak_y, FWHM):
+    """
+    Given an image, the pixel that is the peak of a source, and the full width
+    half max. of the beam, return the sub-pixel location of the source.  If that 
+    cannot be found the location of the pixel is returned.
+    """
+    
+    x0 = max([0, peak_x - FWHM//2])
+    y0 = max([0, peak_y - FWHM//2])
+    try:
+        params = _fit_gaussian(image[x0:peak_x+FWHM//2+1, y0:peak_y+FWHM//2+1])
+    except (IndexError, TypeError, ValueError):
+        return peak_x, peak_y
+        
+    x, y = x0 + params[1], y0 + params[2]
+    if not (abs(x-peak_x) <= FWHM and abs(y-peak_y) <= FWHM):
+        x, y = peak_x, peak_y
+    return x, y
+
+
 @telemetry.track_function
 def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='XX', chan=None, gain=0.2, max_iter=150, sigma=3.0, plot=False):
     """
@@ -225,22 +246,26 @@ def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='X
     exitStatus = 'iteration limit'
     for i in range(max_iter):
         # Find the location of the peak in the flux density
-        peak = np.where( working == working.max() )
+        peak = np.where( (working == working[~convMask].max()) & ~convMask )
         peak_x = peak[0][0]
         peak_y = peak[1][0]
         peakV = working[peak_x,peak_y]
         
         # Optimize the location
-        peakParams = _fit_gaussian(working[peak_x-FWHM//2:peak_x+FWHM//2+1, peak_y-FWHM//2:peak_y+FWHM//2+1])
-        peakVO = peakParams[0]
-        peak_xO = peak_x - FWHM//2 + peakParams[1]
-        peak_yO = peak_y - FWHM//2 + peakParams[2]
+        peak_xO, peak_yO = _optimize_peak(working, peak_x, peak_y, FWHM)
         
         # Quantize to try and keep the computation down without over-simplifiying things
         subpixelationLevel = 5
         peak_xO = round(peak_xO*subpixelationLevel)/float(subpixelationLevel)
         peak_yO = round(peak_yO*subpixelationLevel)/float(subpixelationLevel)
         
+        # Stay in the sky
+        try:
+            if not np.isfinite(_interpolate_angle(ra, peak_xO, peak_yO)):
+                raise IndexError("Off of the sky")
+        except IndexError:
+            peak_xO, peak_yO = peak_x, peak_y
+            
         # Pixel coordinates to right ascension, dec.
         try:
             peakRA = _interpolate_angle(ra, peak_xO, peak_yO)
@@ -295,13 +320,13 @@ def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='X
         toRemove = gain*peakV*beam
         working -= toRemove
         asum = 0.0
-        for l in range(int(peak_xO), int(peak_xO)+2):
+        for l in range(int(peak_xO), int(np.ceil(peak_xO))+1):
             if l > peak_xO:
                 side1 = (peak_xO+0.5) - (l-0.5)
             else:
                 side1 = (l+0.5) - (peak_xO-0.5)
                 
-            for m in range(int(peak_yO), int(peak_yO)+2):
+            for m in range(int(peak_yO), int(np.ceil(peak_yO))+1):
                 if m > peak_yO:
                     side2 = (peak_yO+0.5) - (m-0.5)
                 else:
@@ -507,19 +532,20 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
             peakV = working[peak_x,peak_y]
             
             # Optimize the location
-            try:
-                peakParams = _fit_gaussian(working[peak_x-FWHM//2:peak_x+FWHM//2+1, peak_y-FWHM//2:peak_y+FWHM//2+1])
-            except IndexError:
-                peakParams = [peakV, FWHM//2, FWHM//2]
-            peakVO = peakParams[0]
-            peak_xO = peak_x - FWHM//2 + peakParams[1]
-            peak_yO = peak_y - FWHM//2 + peakParams[2]
+            peak_xO, peak_yO = _optimize_peak(working, peak_x, peak_y, FWHM)
             
             # Quantize to try and keep the computation down without over-simplifiying things
             subpixelationLevel = 5
             peak_xO = round(peak_xO*subpixelationLevel)/float(subpixelationLevel)
             peak_yO = round(peak_yO*subpixelationLevel)/float(subpixelationLevel)
             
+            # Stay in the sky
+            try:
+                if not np.isfinite(_interpolate_angle(ra, peak_xO, peak_yO)):
+                    raise IndexError("Off of the sky")
+            except IndexError:
+                peak_xO, peak_yO = peak_x, peak_y
+                
             # Pixel coordinates to right ascension, dec.
             try:
                 peakRA = _interpolate_angle(ra, peak_xO, peak_yO)
@@ -579,13 +605,13 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
             toRemove = gain*peakV*beam
             working -= toRemove
             asum = 0.0
-            for l in range(int(peak_xO), int(peak_xO)+2):
+            for l in range(int(peak_xO), int(np.ceil(peak_xO))+1):
                 if l > peak_xO:
                     side1 = (peak_xO+0.5) - (l-0.5)
                 else:
                     side1 = (l+0.5) - (peak_xO-0.5)
                     
-                for m in range(int(peak_yO), int(peak_yO)+2):
+                for m in range(int(peak_yO), int(np.ceil(peak_yO))+1):
                     if m > peak_yO:
                         side2 = (peak_yO+0.5) - (m-0.5)
                     else:
-- 
2.43.0


From ddc21799a635cb78a765397552b8403274c86275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:24 +0000
Subject: [PATCH 181/202] fix: ARX filter 7 of a Rev I board returned the
 response of filter 4

The columns of the response files hold HPF3, 10, 20 and 30 with LPF83 and then
the same with LPF73; HPF20 + LPF73 is number 6, not 2 (HPF20 + LPF83).
---
 lsl/common/stations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 9c99a87..9638b94 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -974,7 +974,7 @@ class ARX(object):
         filename = f"arx/ARX_board_{self.id:04d}_filters.npz"
         mapper = mapper = {0: 0, 1: 1, 2: 2, 4: 3}
         if self.revision() == 'I':
-            mapper = {0: 3, 1: 1, 2: 7, 3: 4, 4: 2, 5: 0, 6: 5, 7: 2}
+            mapper = {0: 3, 1: 1, 2: 7, 3: 4, 4: 2, 5: 0, 6: 5, 7: 6}
             
         # Read in the file and convert it to a numpy array
         with DataAccess.open(filename, 'rb') as fh:
-- 
2.43.0


From 90ddb4b5a18070a969c37143bf72a2a611a13ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:24 +0000
Subject: [PATCH 182/202] fix: the phases of NEC radiation patterns were
 converted to radians the wrong way

---
 lsl/sim/necutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/sim/necutils.py b/lsl/sim/necutils.py
index 94577cb..93c8270 100644
--- a/lsl/sim/necutils.py
+++ b/lsl/sim/necutils.py
@@ -322,7 +322,7 @@ class NECPattern:
             powgain = float(cols[4])
             phsgain = float(cols[6])
             self.antenna_pat_dB[phi,theta] = powgain
-            self.antenna_pat_complex[phi,theta] = 10**(powgain/10.0)*np.exp(1j*phsgain*180/np.pi)
+            self.antenna_pat_complex[phi,theta] = 10**(powgain/10.0)*np.exp(1j*phsgain*np.pi/180)
             n += 1
             
     def _read_excitation(self, fh):
-- 
2.43.0


From 0ac2abd1d60e6d8d3cc58163bbfae9119d5686f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:24 +0000
Subject: [PATCH 183/202] fix: the solid angle of a sky map pixel was
 multiplied by pi/4 instead of divided by 4 pi

---
 lsl/skymap.py | 558 +++++++++++++++++++++++++-------------------------
 1 file changed, 279 insertions(+), 279 deletions(-)

diff --git a/lsl/skymap.py b/lsl/skymap.py
index adbb664..3ed4484 100644
--- a/lsl/skymap.py
+++ b/lsl/skymap.py
@@ -1,279 +1,279 @@
-"""
-Classes and methods to model sky brightness and visibility.
-
-.. versionchanged:: 1.2.0
-    Removed the original SkyMap class that uses LFmap at 73.9 MHz
-    Updated SkyMapGSM to use the actual GSM rather than a fit to the GSM
-    Added a new SkyMapLFSM that uses the 5.1 degree resolution LFSM
-"""
-
-### This module handles the skymaps from the 74 MHz skymap.
-### David Munton, ARL:UT Jan 2007
-
-import os
-import abc
-import numpy as np
-
-from scipy.interpolate import interp1d
-
-from astropy.coordinates import FK5, EarthLocation, AltAz
-from astropy import units as astrounits
-from astropy.time import Time as AstroTime
-
-from lsl import astro
-from lsl.common.data_access import DataAccess
-
-
-
-__version__   = '0.5'
-__all__ = ['SkyMapBase', 'SkyMapBase', 'SkyMapGSM', 'SkyMapLFSM', 'ProjectedSkyMap']
-__author__    = 'J. York'
-__maintainer__ = 'Jayce Dowell'
-
-
-class SkyMapBase(object):
-    """
-    This code is the base class for the sky map. It takes as input a skymap file
-    name and frequency to which the skymap corresponds.  It has the following
-    methods:
-     * __init__ - takes the array coordinate filename as an input argument.
-     * normalize_power - Converts the skymap powers (in Kelvin radiated into 4 pi
-                         ster) into a power seen at the antenna.
-     * compute_total_power - Sums the power for all sources in the sky
-     * ScaleSourcePowerstoFrequency - Scales the skymap from the base 73.8 MHz to
-                                      the desired frequency.
-    """
-    
-    __metaclass__ = abc.ABCMeta
-    
-    # Class data 
-    degToRad = (np.pi/180.)             # Usual conversion factor
-    
-    def __init__(self, filename=None, freq_MHz=73.9):
-        self.filename = filename
-        self.freq_MHz = freq_MHz
-        self._power = None
-        
-        # Load in the coordinates and data
-        self._load()
-        
-    @abc.abstractmethod
-    def _load(self):
-        """
-        Load in the specified filename and populate the ra, dec, and _power
-        attributes.  This will be over-ridden in the skymap-specific subclasses.
-        """
-        
-        raise NotImplementedError
-        
-    def normalize_power(self):
-        """
-        Compute the skymap power (total power radiated into 4 pi steradians) into 
-        a power at antenna, based on pixel count.
-        """
-        
-        return self._power
-        
-    def compute_total_power(self):
-        """
-        Compute and return the total power from the sky.
-        """
-        
-        if len(self._power) == 0:
-            raise RuntimeError(f"{type(self).__name__} contains no data")
-        return self.normalize_power().sum()
-
-
-class SkyMapGSM(SkyMapBase):
-    """
-    Extension of the SkyMapBase class to use the Global Sky Model.
-    
-    For more information on the Global Sky Model, see: http://space.mit.edu/~angelica/gsm/index.html
-    
-    .. note:: This class uses a slightly different interpolation method than
-              the original GSM and introduces a few percent difference at 
-              74 MHz.
-    
-    .. versionchanged:: 1.2.0
-        Reworked the GSM model to use the actual GSM that has been 
-        downsampled to 64 sides rather than the fit.
-    """
-    
-    _input = os.path.join('skymap', 'gsm-408locked.npz')
-    
-    def __init__(self, filename=None, freq_MHz=73.9):
-        """
-        Initialize the SkyMapGSM object with an optional full file path to 
-        the skymap file.
-        """
-        
-        if filename is None:
-            filename = self._input
-        SkyMapBase.__init__(self, filename=filename, freq_MHz=freq_MHz)
-        
-    def _load(self):
-        # Since we are using a pre-computed GSM which is a NPZ file, read it
-        # in with numpy.load.
-        with DataAccess.open(self.filename, 'rb') as fh:
-            dataDict = np.load(fh)
-            
-            # RA and dec. are stored in the dictionary as radians
-            self.ra = dataDict['ra'].ravel() / self.degToRad
-            self.dec = dataDict['dec'].ravel() / self.degToRad
-            
-            # Compute the temperature for the current frequency
-            ## Load in the data
-            freqs = dataDict['freqs']
-            sigmas = dataDict['sigmas']
-            comps = dataDict['comps']
-            maps = dataDict['maps']
-            ## Build the scale and spectral component interpolation functions so that we can
-            ## move from the surveys to an arbitrary frequency.  This is done using cubic 
-            ## interpolation across log(freq)
-            scaleFunc = interp1d(np.log(freqs), np.log(sigmas), kind='cubic')
-            compFuncs = []
-            for i in range(comps.shape[1]):
-                compFuncs.append( interp1d(np.log(freqs), comps[:,i], kind='cubic') )
-            ## Actually create the realization by running the interplation and adding up the
-            ## compnent maps
-            output = maps[:,0]*0.0
-            for i,compFunc in enumerate(compFuncs):
-                output += compFunc(np.log(self.freq_MHz))*maps[:,i]
-            output *= np.exp(scaleFunc(np.log(self.freq_MHz)))
-            ## Save
-            self._power = output
-
-
-class SkyMapLFSM(SkyMapGSM):
-    """
-    Extension of the SkyMapBase class to use the Low Frequency Sky Model with 5.1
-    degree resolution.
-    
-    For more information on the Low Frequency Sky Model, see: https://lda10g.alliance.unm.edu/LWA1LowFrequencySkySurvey/
-    
-    .. versionadded:: 1.2.0
-    """
-    
-    _input = os.path.join('skymap', 'lfsm-5.1deg.npz')
-    
-    def __init__(self, filename=None, freq_MHz=73.9):
-        """
-        Initialize the SkyMapLFSM object with an optional full file path to 
-        the skymap file.
-        """
-        
-        if filename is None:
-            filename = self._input
-        SkyMapBase.__init__(self, filename=filename, freq_MHz=freq_MHz)
-        
-    def _load(self):
-        # Since we are using a pre-computed GSM which is a NPZ file, read it
-        # in with numpy.load.
-        with DataAccess.open(self.filename, 'rb') as fh:
-            dataDict = np.load(fh)
-            
-            # RA and dec. are stored in the dictionary as radians
-            self.ra = dataDict['ra'].ravel() / self.degToRad
-            self.dec = dataDict['dec'].ravel() / self.degToRad
-            
-            # Compute the temperature for the current frequency
-            ## Load in the data
-            freqs = dataDict['freqs']
-            sigmas = dataDict['sigmas']
-            comps = dataDict['comps']
-            maps = dataDict['maps']
-            ## Build the scale and spectral component interpolation functions so that we can
-            ## move from the surveys to an arbitrary frequency.  This is done using spline
-            ## interpolation for the scale factor and cubic for the 2-D structure.
-            ## interpolation across log(freq)
-            scaleFunc = interp1d(np.log(freqs), np.log(sigmas), kind='slinear')
-            compFuncs = []
-            for i in range(comps.shape[1]):
-                compFuncs.append( interp1d(np.log(freqs), comps[:,i], kind='cubic') )
-            ## Actually create the realization by running the interplation and adding up the
-            ## compnent maps
-            output = maps[:,0]*0.0
-            for i,compFunc in enumerate(compFuncs):
-                output += compFunc(np.log(self.freq_MHz))*maps[:,i]
-            output *= np.exp(scaleFunc(np.log(self.freq_MHz)))
-            ## Save
-            self._power = output
-
-
-class ProjectedSkyMap(object):
-    """
-    The class for handling the model sky brightness maps over a particular site.
-    This code is the base class for the sky map visible at a specific location. It
-    takes as input a skymap file name and frequency to which the skymap corresponds.
-    It inherits from class SkyMap. It has the following methods:
-     1. __init__ - takes the array coordinate filename as an input argument.
-     2. get_direction_cosines - Computes the direction cosines
-     3. compute_visibile_power - Sums the power for all visible sources in
-        the sky.
-    """
-    
-    def __init__(self, skymap_object, lat, lon, utc_jd):
-        """
-        Initialize the skymap at input lat,lon (decimal degrees) and time (in 
-        UTC julian day).
-        """
-        
-        self.skymap_object = skymap_object
-        
-        assert  -90 <= lat <=  90, ValueError(f"lat = {lat:g} not in [-90,90]")
-        assert -360 <= lon <= 360, ValueError(f"lon = {lon:g} not in [-360,360]")
-        self.lat  = lat
-        self.lon  = lon
-        self.time = utc_jd
-        
-        # Compute the ra and dec locations to a altitude and azimuth. This requires a lat/lon and a time (UTC).
-        # Alt and Az are compressed to show only the visible source.
-        sc = FK5(ra=self.skymap_object.ra*astrounits.deg, dec=self.skymap_object.dec*astrounits.deg, equinox='J2000')
-        el = EarthLocation.from_geodetic(lon*astrounits.deg, lat*astrounits.deg, height=0*astrounits.m)
-        aa = AltAz(location=el, obstime=AstroTime(utc_jd, format='jd', scale='utc'))
-        tc = sc.transform_to(aa)
-        self.alt = tc.alt.to('deg').value
-        self.az = tc.az.to('deg').value
-        
-        # Compress the az/alt so that only the visible sources are available. "
-        visibleMask = self.alt > 0.0
-        
-        #Compress arrays to hide non-visible sources
-        self.visibleAlt = np.compress(visibleMask, self.alt)
-        self.visibleAz = np.compress(visibleMask, self.az)
-        self.visiblePower = np.compress(visibleMask, self.skymap_object._power)
-        try:
-            pixelSolidAngle = (2.0 * np.pi)**2/(self.skymap_object.numPixelsX*self.skymap_object.numPixelsY)
-        except AttributeError:
-            pixelSolidAngle = 2.5566346e-4
-        fractionSolidAngle = (1.0/4.0*np.pi) * pixelSolidAngle
-        
-        # The cosine term is the projection of the receiving area onto the direction 
-        # of the source
-        normalizedPower = self.skymap_object.normalize_power() * fractionSolidAngle  
-        self.visibleNormalizedPower = np.compress(visibleMask, normalizedPower)
-        #self.visibleNormalizedPower = self.visiblePower*np.cos(self.visibleAlt * self.skymap_object.degToRad)
-        self.visibleRa = np.compress(visibleMask, self.skymap_object.ra)
-        self.visibleDec = np.compress(visibleMask, self.skymap_object.dec)
-        
-    def get_direction_cosines(self):
-        """
-        Compute the direction cosines and return the tuple of arrays (l,m,n).
-        """
-        
-        altRad = self.visibleAlt*self.skymap_object.degToRad
-        azRad = self.visibleAz*self.skymap_object.degToRad
-        l = np.cos(altRad)*np.sin(azRad)
-        m = np.cos(altRad)*np.cos(azRad)
-        n = np.sin(altRad)
-        return (l, m, n)
-        
-    def compute_visible_power(self):
-        """
-        Compute and return the total power from visible portion of the sky.
-        """
-        
-        if len(self.visibleNormalizedPower) == 0:
-            raise RuntimeError("%s contains no data" % type(self).__name__)
-        totalVisiblePower = sum(self.visibleNormalizedPower)
-        return totalVisiblePower
+"""
+Classes and methods to model sky brightness and visibility.
+
+.. versionchanged:: 1.2.0
+    Removed the original SkyMap class that uses LFmap at 73.9 MHz
+    Updated SkyMapGSM to use the actual GSM rather than a fit to the GSM
+    Added a new SkyMapLFSM that uses the 5.1 degree resolution LFSM
+"""
+
+### This module handles the skymaps from the 74 MHz skymap.
+### David Munton, ARL:UT Jan 2007
+
+import os
+import abc
+import numpy as np
+
+from scipy.interpolate import interp1d
+
+from astropy.coordinates import FK5, EarthLocation, AltAz
+from astropy import units as astrounits
+from astropy.time import Time as AstroTime
+
+from lsl import astro
+from lsl.common.data_access import DataAccess
+
+
+
+__version__   = '0.5'
+__all__ = ['SkyMapBase', 'SkyMapBase', 'SkyMapGSM', 'SkyMapLFSM', 'ProjectedSkyMap']
+__author__    = 'J. York'
+__maintainer__ = 'Jayce Dowell'
+
+
+class SkyMapBase(object):
+    """
+    This code is the base class for the sky map. It takes as input a skymap file
+    name and frequency to which the skymap corresponds.  It has the following
+    methods:
+     * __init__ - takes the array coordinate filename as an input argument.
+     * normalize_power - Converts the skymap powers (in Kelvin radiated into 4 pi
+                         ster) into a power seen at the antenna.
+     * compute_total_power - Sums the power for all sources in the sky
+     * ScaleSourcePowerstoFrequency - Scales the skymap from the base 73.8 MHz to
+                                      the desired frequency.
+    """
+    
+    __metaclass__ = abc.ABCMeta
+    
+    # Class data 
+    degToRad = (np.pi/180.)             # Usual conversion factor
+    
+    def __init__(self, filename=None, freq_MHz=73.9):
+        self.filename = filename
+        self.freq_MHz = freq_MHz
+        self._power = None
+        
+        # Load in the coordinates and data
+        self._load()
+        
+    @abc.abstractmethod
+    def _load(self):
+        """
+        Load in the specified filename and populate the ra, dec, and _power
+        attributes.  This will be over-ridden in the skymap-specific subclasses.
+        """
+        
+        raise NotImplementedError
+        
+    def normalize_power(self):
+        """
+        Compute the skymap power (total power radiated into 4 pi steradians) into 
+        a power at antenna, based on pixel count.
+        """
+        
+        return self._power
+        
+    def compute_total_power(self):
+        """
+        Compute and return the total power from the sky.
+        """
+        
+        if len(self._power) == 0:
+            raise RuntimeError(f"{type(self).__name__} contains no data")
+        return self.normalize_power().sum()
+
+
+class SkyMapGSM(SkyMapBase):
+    """
+    Extension of the SkyMapBase class to use the Global Sky Model.
+    
+    For more information on the Global Sky Model, see: http://space.mit.edu/~angelica/gsm/index.html
+    
+    .. note:: This class uses a slightly different interpolation method than
+              the original GSM and introduces a few percent difference at 
+              74 MHz.
+    
+    .. versionchanged:: 1.2.0
+        Reworked the GSM model to use the actual GSM that has been 
+        downsampled to 64 sides rather than the fit.
+    """
+    
+    _input = os.path.join('skymap', 'gsm-408locked.npz')
+    
+    def __init__(self, filename=None, freq_MHz=73.9):
+        """
+        Initialize the SkyMapGSM object with an optional full file path to 
+        the skymap file.
+        """
+        
+        if filename is None:
+            filename = self._input
+        SkyMapBase.__init__(self, filename=filename, freq_MHz=freq_MHz)
+        
+    def _load(self):
+        # Since we are using a pre-computed GSM which is a NPZ file, read it
+        # in with numpy.load.
+        with DataAccess.open(self.filename, 'rb') as fh:
+            dataDict = np.load(fh)
+            
+            # RA and dec. are stored in the dictionary as radians
+            self.ra = dataDict['ra'].ravel() / self.degToRad
+            self.dec = dataDict['dec'].ravel() / self.degToRad
+            
+            # Compute the temperature for the current frequency
+            ## Load in the data
+            freqs = dataDict['freqs']
+            sigmas = dataDict['sigmas']
+            comps = dataDict['comps']
+            maps = dataDict['maps']
+            ## Build the scale and spectral component interpolation functions so that we can
+            ## move from the surveys to an arbitrary frequency.  This is done using cubic 
+            ## interpolation across log(freq)
+            scaleFunc = interp1d(np.log(freqs), np.log(sigmas), kind='cubic')
+            compFuncs = []
+            for i in range(comps.shape[1]):
+                compFuncs.append( interp1d(np.log(freqs), comps[:,i], kind='cubic') )
+            ## Actually create the realization by running the interplation and adding up the
+            ## compnent maps
+            output = maps[:,0]*0.0
+            for i,compFunc in enumerate(compFuncs):
+                output += compFunc(np.log(self.freq_MHz))*maps[:,i]
+            output *= np.exp(scaleFunc(np.log(self.freq_MHz)))
+            ## Save
+            self._power = output
+
+
+class SkyMapLFSM(SkyMapGSM):
+    """
+    Extension of the SkyMapBase class to use the Low Frequency Sky Model with 5.1
+    degree resolution.
+    
+    For more information on the Low Frequency Sky Model, see: https://lda10g.alliance.unm.edu/LWA1LowFrequencySkySurvey/
+    
+    .. versionadded:: 1.2.0
+    """
+    
+    _input = os.path.join('skymap', 'lfsm-5.1deg.npz')
+    
+    def __init__(self, filename=None, freq_MHz=73.9):
+        """
+        Initialize the SkyMapLFSM object with an optional full file path to 
+        the skymap file.
+        """
+        
+        if filename is None:
+            filename = self._input
+        SkyMapBase.__init__(self, filename=filename, freq_MHz=freq_MHz)
+        
+    def _load(self):
+        # Since we are using a pre-computed GSM which is a NPZ file, read it
+        # in with numpy.load.
+        with DataAccess.open(self.filename, 'rb') as fh:
+            dataDict = np.load(fh)
+            
+            # RA and dec. are stored in the dictionary as radians
+            self.ra = dataDict['ra'].ravel() / self.degToRad
+            self.dec = dataDict['dec'].ravel() / self.degToRad
+            
+            # Compute the temperature for the current frequency
+            ## Load in the data
+            freqs = dataDict['freqs']
+            sigmas = dataDict['sigmas']
+            comps = dataDict['comps']
+            maps = dataDict['maps']
+            ## Build the scale and spectral component interpolation functions so that we can
+            ## move from the surveys to an arbitrary frequency.  This is done using spline
+            ## interpolation for the scale factor and cubic for the 2-D structure.
+            ## interpolation across log(freq)
+            scaleFunc = interp1d(np.log(freqs), np.log(sigmas), kind='slinear')
+            compFuncs = []
+            for i in range(comps.shape[1]):
+                compFuncs.append( interp1d(np.log(freqs), comps[:,i], kind='cubic') )
+            ## Actually create the realization by running the interplation and adding up the
+            ## compnent maps
+            output = maps[:,0]*0.0
+            for i,compFunc in enumerate(compFuncs):
+                output += compFunc(np.log(self.freq_MHz))*maps[:,i]
+            output *= np.exp(scaleFunc(np.log(self.freq_MHz)))
+            ## Save
+            self._power = output
+
+
+class ProjectedSkyMap(object):
+    """
+    The class for handling the model sky brightness maps over a particular site.
+    This code is the base class for the sky map visible at a specific location. It
+    takes as input a skymap file name and frequency to which the skymap corresponds.
+    It inherits from class SkyMap. It has the following methods:
+     1. __init__ - takes the array coordinate filename as an input argument.
+     2. get_direction_cosines - Computes the direction cosines
+     3. compute_visibile_power - Sums the power for all visible sources in
+        the sky.
+    """
+    
+    def __init__(self, skymap_object, lat, lon, utc_jd):
+        """
+        Initialize the skymap at input lat,lon (decimal degrees) and time (in 
+        UTC julian day).
+        """
+        
+        self.skymap_object = skymap_object
+        
+        assert  -90 <= lat <=  90, ValueError(f"lat = {lat:g} not in [-90,90]")
+        assert -360 <= lon <= 360, ValueError(f"lon = {lon:g} not in [-360,360]")
+        self.lat  = lat
+        self.lon  = lon
+        self.time = utc_jd
+        
+        # Compute the ra and dec locations to a altitude and azimuth. This requires a lat/lon and a time (UTC).
+        # Alt and Az are compressed to show only the visible source.
+        sc = FK5(ra=self.skymap_object.ra*astrounits.deg, dec=self.skymap_object.dec*astrounits.deg, equinox='J2000')
+        el = EarthLocation.from_geodetic(lon*astrounits.deg, lat*astrounits.deg, height=0*astrounits.m)
+        aa = AltAz(location=el, obstime=AstroTime(utc_jd, format='jd', scale='utc'))
+        tc = sc.transform_to(aa)
+        self.alt = tc.alt.to('deg').value
+        self.az = tc.az.to('deg').value
+        
+        # Compress the az/alt so that only the visible sources are available. "
+        visibleMask = self.alt > 0.0
+        
+        #Compress arrays to hide non-visible sources
+        self.visibleAlt = np.compress(visibleMask, self.alt)
+        self.visibleAz = np.compress(visibleMask, self.az)
+        self.visiblePower = np.compress(visibleMask, self.skymap_object._power)
+        try:
+            pixelSolidAngle = (2.0 * np.pi)**2/(self.skymap_object.numPixelsX*self.skymap_object.numPixelsY)
+        except AttributeError:
+            pixelSolidAngle = 2.5566346e-4
+        fractionSolidAngle = 1.0/(4.0*np.pi) * pixelSolidAngle
+        
+        # The cosine term is the projection of the receiving area onto the direction 
+        # of the source
+        normalizedPower = self.skymap_object.normalize_power() * fractionSolidAngle  
+        self.visibleNormalizedPower = np.compress(visibleMask, normalizedPower)
+        #self.visibleNormalizedPower = self.visiblePower*np.cos(self.visibleAlt * self.skymap_object.degToRad)
+        self.visibleRa = np.compress(visibleMask, self.skymap_object.ra)
+        self.visibleDec = np.compress(visibleMask, self.skymap_object.dec)
+        
+    def get_direction_cosines(self):
+        """
+        Compute the direction cosines and return the tuple of arrays (l,m,n).
+        """
+        
+        altRad = self.visibleAlt*self.skymap_object.degToRad
+        azRad = self.visibleAz*self.skymap_object.degToRad
+        l = np.cos(altRad)*np.sin(azRad)
+        m = np.cos(altRad)*np.cos(azRad)
+        n = np.sin(altRad)
+        return (l, m, n)
+        
+    def compute_visible_power(self):
+        """
+        Compute and return the total power from visible portion of the sky.
+        """
+        
+        if len(self.visibleNormalizedPower) == 0:
+            raise RuntimeError("%s contains no data" % type(self).__name__)
+        totalVisiblePower = sum(self.visibleNormalizedPower)
+        return totalVisiblePower
-- 
2.43.0


From 865a6b99be92a6f08d11e94a42f63153b97a0aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:24 +0000
Subject: [PATCH 184/202] fix: altitudes given as ephem angles to the beam
 models were taken as degrees

---
 lsl/sim/beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/sim/beam.py b/lsl/sim/beam.py
index 18ac994..f55af94 100644
--- a/lsl/sim/beam.py
+++ b/lsl/sim/beam.py
@@ -248,7 +248,7 @@ def mueller_matrix(model, az, alt, frequency=74e6, degrees=True):
     
     if isinstance(alt, AstroAngle):
         alt = alt.deg
-    elif isinstance(az, ephem.Angle) or not degrees:
+    elif isinstance(alt, ephem.Angle) or not degrees:
         alt = alt * 180/np.pi
         
     is_1d = False
@@ -352,7 +352,7 @@ def beam_response(model, pol, az, alt, frequency=74e6, degrees=True):
     
     if isinstance(alt, AstroAngle):
         alt = alt.deg
-    elif isinstance(az, ephem.Angle) or not degrees:
+    elif isinstance(alt, ephem.Angle) or not degrees:
         alt = alt * 180/np.pi
         
     is_1d = False
-- 
2.43.0


From 7ffa936b3370615220d121d27d88386581830f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:24 +0000
Subject: [PATCH 185/202] fix: the Stokes V response of a beam model was always
 zero

XY - YX is purely imaginary and only the real part is kept; V is i(XY - YX), as
in the Mueller matrix.
---
 lsl/sim/beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/sim/beam.py b/lsl/sim/beam.py
index f55af94..d3c9e10 100644
--- a/lsl/sim/beam.py
+++ b/lsl/sim/beam.py
@@ -301,8 +301,8 @@ def _compute_from_feeds(pol, XE, XH, YE, YH):
         return _compute_from_feeds('XY', XE, XH, YE, YH) \
                + _compute_from_feeds('YX', XE, XH, YE, YH)
     elif pol == 'V':
-        return _compute_from_feeds('XY', XE, XH, YE, YH) \
-               - _compute_from_feeds('YX', XE, XH, YE, YH)
+        return 1j*(_compute_from_feeds('XY', XE, XH, YE, YH) \
+                   - _compute_from_feeds('YX', XE, XH, YE, YH))
     else:
         raise ValueError(f"Unknown polarization produce '{pol}'")
 
-- 
2.43.0


From be5711818080c16e42c9f0ccf9f0694e60439653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:24 +0000
Subject: [PATCH 186/202] fix: the NEC beam models were normalized by a complex
 number

max() of complex values picks the one with the largest real part, so the largest
response was not one and depended on the phases of the fields.
---
 lsl/sim/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/sim/beam.py b/lsl/sim/beam.py
index d3c9e10..ee1d838 100644
--- a/lsl/sim/beam.py
+++ b/lsl/sim/beam.py
@@ -145,7 +145,7 @@ def _load_response_full(frequency, model='nec_004'):
             mflds = h[f"{pol.upper()}-pol_Efields"]
             E = mflds['Etheta(Mag)'][best,:,:maz.size]*np.exp(1j*mflds['Etheta(Phase)'][best,:,:maz.size])
             H = mflds['Ephi(Mag)'][best,:,:maz.size]*np.exp(1j*mflds['Ephi(Phase)'][best,:,:maz.size])
-            s = max([E.max(), H.max()])
+            s = max([np.abs(E).max(), np.abs(H).max()])
             E /= s
             H /= s
             
-- 
2.43.0


From c2e8faa4befacfe553d775e524abb87026338038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:24 +0000
Subject: [PATCH 187/202] fix: USTEC uncertainties failed, or were left at
 zero, for maps that are not square

---
 lsl/misc/ionosphere/_ustec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/ionosphere/_ustec.py b/lsl/misc/ionosphere/_ustec.py
index 8d17923..cd18b20 100644
--- a/lsl/misc/ionosphere/_ustec.py
+++ b/lsl/misc/ionosphere/_ustec.py
@@ -178,7 +178,7 @@ def _parse_ustec_individual(filename_or_fh, rmsname_or_fh=None):
         interpFunction = RectBivariateSpline(rlats, rlngs, rdata, kx=1, ky=1)
         rms = data*0.0
         for i in range(lats.shape[0]):
-            for j in range(lats.shape[0]):
+            for j in range(lats.shape[1]):
                 rms[i,j] = interpFunction(lats[i,j], lngs[i,j])[0,0]
     else:
         ## Sadness, no RMS file found...
-- 
2.43.0


From 99772878601076bfeef6bd5696bb3e7e7548f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:24 +0000
Subject: [PATCH 188/202] fix: the time of day was left out of the epoch of the
 magnetic field

---
 lsl/misc/ionosphere/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/ionosphere/__init__.py b/lsl/misc/ionosphere/__init__.py
index 6c060de..397d261 100644
--- a/lsl/misc/ionosphere/__init__.py
+++ b/lsl/misc/ionosphere/__init__.py
@@ -237,7 +237,7 @@ def get_magnetic_field(lat, lng, elev, mjd=None, ecef=False):
     mpm = int((mjd - int(mjd))*24.0*3600.0*1000.0)
     mjd0 = mjdmpm_to_datetime(int(mjd), mpm)
     ## Convert the datetime instance to January 1
-    mjd0 = mjd0.replace(month=1, day=1, hour=0, second=0, microsecond=0)
+    mjd0 = mjd0.replace(month=1, day=1, hour=0, minute=0, second=0, microsecond=0)
     ## Figure out January 1 for the following year
     mjd1 = mjd0.replace(year=mjd0.year+1)
     ## Figure out how long the year is in days
@@ -245,7 +245,7 @@ def get_magnetic_field(lat, lng, elev, mjd=None, ecef=False):
     diffDays = diffDays.days + diffDays.seconds/86400.0 + diffDays.microseconds/1e6/86400.0
     ## Convert the January 1 date back to an MJD
     mjd0, mpm0 = datetime_to_mjdmpm(mjd0)
-    mjd0 = mjd0 + mpm/1000.0/3600.0/24.0
+    mjd0 = mjd0 + mpm0/1000.0/3600.0/24.0
     year = (mjd1.year - 1) + (mjd - mjd0) / diffDays
     
     # Convert the geodetic position provided to a geocentric one for calculation
-- 
2.43.0


From 325647dda3bf3849b6ba15cdbca7b2e8f5b21c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:57 +0000
Subject: [PATCH 189/202] fix: lsl.catalog could only be imported after
 something else had loaded collections.abc

---
 lsl/catalog.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lsl/catalog.py b/lsl/catalog.py
index e424a42..ceec1ac 100644
--- a/lsl/catalog.py
+++ b/lsl/catalog.py
@@ -5,12 +5,7 @@ LWA astronomical source catalogs.
 import os
 import math
 import abc
-import collections
-try:
-    Mapping = collections.abc.Mapping
-except AttributeError:
-    # Catch for < Py3.10
-    Mapping = collections.Mapping
+from collections.abc import Mapping
 
 from lsl import astro
 from lsl import transform
-- 
2.43.0


From c052127302d0283a427d897160256b1df89fe9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:57 +0000
Subject: [PATCH 190/202] fix: TEC maps less than two hours apart were not
 interpolated between neighbours

For hourly (CODE) and 15 minute (UQR) maps the value was interpolated between the
first and the last map in a four hour window, so that not even the value at the
time of a map was that of the map.
---
 lsl/misc/ionosphere/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lsl/misc/ionosphere/__init__.py b/lsl/misc/ionosphere/__init__.py
index 397d261..d62804c 100644
--- a/lsl/misc/ionosphere/__init__.py
+++ b/lsl/misc/ionosphere/__init__.py
@@ -459,6 +459,12 @@ def get_tec_value(mjd, lat=None, lng=None, include_rms=False, type='IGS'):
         # account that a new model is generated every two hours
         best = np.where( np.abs((tecMap['dates']-mjd)) < 2/24.0 )[0]
         
+    # Keep only the maps on either side of the requested MJD since some providers
+    # have maps that are closer together than this
+    before = best[tecMap['dates'][best] <= mjd]
+    after = best[tecMap['dates'][best] >= mjd]
+    best = np.concatenate([before[-1:], after[:1]])
+    
     # Interpolate in time
     ## TEC
     slope = tecMap['tec'][best[-1],:,:] - tecMap['tec'][best[0],:,:]
-- 
2.43.0


From d6510dd2db1e2544586e6a7b521aad56388d2cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:27 +0000
Subject: [PATCH 191/202] fix: ionospheric pierce points failed to the north
 and at low elevations

The position was searched for by minimizing the difference in azimuth and
elevation without allowing for azimuths that wrap around north or latitudes
beyond a pole, so the search raised an exception or stopped up to a kilometer
away.  Follow the line of sight to where it crosses the ionosphere instead.
---
 lsl/misc/ionosphere/__init__.py | 67 +++++++++++++--------------------
 1 file changed, 27 insertions(+), 40 deletions(-)

diff --git a/lsl/misc/ionosphere/__init__.py b/lsl/misc/ionosphere/__init__.py
index d62804c..de69dad 100644
--- a/lsl/misc/ionosphere/__init__.py
+++ b/lsl/misc/ionosphere/__init__.py
@@ -16,12 +16,12 @@ try:
     from scipy.misc import factorial
 except ImportError:
     from scipy.special import factorial
-from scipy.optimize import fmin
+from scipy.optimize import brentq
 from scipy.interpolate import RectBivariateSpline
 
 from astropy.coordinates import Angle as AstroAngle
 
-from lsl.common.stations import geo_to_ecef
+from lsl.common.stations import geo_to_ecef, ecef_to_geo
 from lsl.common.data_access import DataAccess
 from lsl.common.mcs import mjdmpm_to_datetime, datetime_to_mjdmpm
 from lsl.common.color import colorfy
@@ -511,39 +511,6 @@ def get_ionospheric_pierce_point(site, az, el, height=450e3):
     positive), and elevation (meters).
     """
     
-    # Create the various functions we need to figure out this optimization 
-    # problem.  Maybe there is a better way to do this.
-    
-    ## Function that takes in a two-element tuple of latitude and longitude
-    ## and returns the azimuth and elevation relative to the observer assuming
-    ## a particular height.
-    def func(params, xdata, site=site, elev=height):
-        lat,lon = params
-        
-        az,el,d = site.get_pointing_and_distance((lat, lon, elev))
-        az %= (2*np.pi)
-        
-        az *= 180/np.pi
-        el *= 180/np.pi
-        
-        return np.array([az, el])
-        
-    ## Error function that computes the difference between the input and the 
-    ## model used in func().
-    def err(params, ydata, xdata):
-        return ydata - func(params, xdata)
-        
-    ## Secondary error function that computes a sum(err**2) that can be used
-    ## with scipy.optimize.fmin()
-    def err2(params, ydata, xdata):
-        return (err(params, ydata, xdata)**2).sum()
-        
-    # Initial conditions for the optimization - we start directly overhead
-    lat = site.lat * 180/np.pi
-    lon = site.lon * 180/np.pi
-    elev = site.elev + height
-    x0 = (lat, lon)
-    
     # Convert
     if isinstance(az, AstroAngle):
         az = az.deg
@@ -555,9 +522,29 @@ def get_ionospheric_pierce_point(site, az, el, height=450e3):
     elif isinstance(el, ephem.Angle):
         el = el * 180/np.pi
         
-    # Optimize
-    output = fmin(err2, x0, args=(np.array([az, el]), []), disp=False)
-    LSL_LOGGER.debug(f"Ionospheric pierce point: lat={output[0]:.4f} deg, lon={output[1]:.4f} deg, height={height:.0f} m")
-
+    # Location of the site and the direction of the line of sight in ECEF
+    xyz = np.array(geo_to_ecef(site.lat, site.lon, site.elev))
+    slat, clat = np.sin(site.lat), np.cos(site.lat)
+    slon, clon = np.sin(site.lon), np.cos(site.lon)
+    saz, caz = np.sin(az*np.pi/180), np.cos(az*np.pi/180)
+    sel, cel = np.sin(el*np.pi/180), np.cos(el*np.pi/180)
+    losEast, losNorth, losUp = cel*saz, cel*caz, sel
+    los = np.array([-slon*losEast - slat*clon*losNorth + clat*clon*losUp,
+                     clon*losEast - slat*slon*losNorth + clat*slon*losUp,
+                                    clat*losNorth      + slat*losUp])
+                    
+    ## Function that takes in a distance along the line of sight and returns how
+    ## far above the ionosphere that is
+    def err(distance):
+        lat, lon, elev = ecef_to_geo(*(xyz + distance*los))
+        return elev - height
+        
+    # Find where the line of sight crosses the ionosphere.  No chord is longer than
+    # twice the radius so the line of sight has left it well before the far end.
+    distance = brentq(err, 0.0, 3*(_RADIUS_EARTH + height))
+    lat, lon, elev = ecef_to_geo(*(xyz + distance*los))
+    lat, lon = lat*180/np.pi, lon*180/np.pi
+    LSL_LOGGER.debug(f"Ionospheric pierce point: lat={lat:.4f} deg, lon={lon:.4f} deg, height={height:.0f} m")
+    
     # Done
-    return output[0], output[1], height
+    return lat, lon, height
-- 
2.43.0


From a4b54133695d194d51284aee3e0eb800f6640fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:41 +0000
Subject: [PATCH 192/202] fix: the positions of PKS90 sources were cut off at a
 tenth of a second

The right ascensions are given to the millisecond and the declinations to a
hundredth of an arcsecond.
---
 lsl/catalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/catalog.py b/lsl/catalog.py
index ceec1ac..c75488e 100644
--- a/lsl/catalog.py
+++ b/lsl/catalog.py
@@ -428,11 +428,11 @@ class PKS90_Catalog(Catalog):
                     alias1 = line[168:175]
                     raHours = int(line[10:12])
                     raMinutes = int(line[13:15])
-                    raSeconds = float(line[16:20])
+                    raSeconds = float(line[16:22])
                     decSign = line[23]
                     decDegrees = int(line[24:26])
                     decMinutes = int(line[27:29])
-                    decSeconds = float(line[30:34])
+                    decSeconds = float(line[30:35])
                 except ValueError:
                     raise RuntimeError(f"file {fileName}, line {lineNum} incorrectly formated [{line}]")
                     
-- 
2.43.0


From 28415f9405677909777f00acceee66a04953accb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:11 +0000
Subject: [PATCH 193/202] fix: a TEC map that could not be uncompressed was
 kept in the cache

The error was also raised past the mirror and the other products, and every
later request for the same day failed on the bad file.
---
 lsl/misc/ionosphere/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/ionosphere/_utils.py b/lsl/misc/ionosphere/_utils.py
index 4a4aecc..4bb0f04 100644
--- a/lsl/misc/ionosphere/_utils.py
+++ b/lsl/misc/ionosphere/_utils.py
@@ -152,8 +152,8 @@ def _download_worker_standard(url, filename):
             
         status = True
         
-    except RuntimeError:
-        # Failed to download, remove the empty file
+    except (RuntimeError, subprocess.CalledProcessError):
+        # Failed to download or to uncompress, remove the bad file
         _CACHE_DIR.remove(filename)
         
     return status
-- 
2.43.0


From f5e601ea47e436377cce756bcf64bb993cdc48c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:29 +0000
Subject: [PATCH 194/202] fix: the declination of a field that points due south
 was zero

---
 lsl/misc/ionosphere/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/ionosphere/__init__.py b/lsl/misc/ionosphere/__init__.py
index de69dad..ce77caf 100644
--- a/lsl/misc/ionosphere/__init__.py
+++ b/lsl/misc/ionosphere/__init__.py
@@ -339,7 +339,7 @@ def compute_magnetic_declination(Bn, Be, Bz):
     Bh = np.sqrt(Bn**2+Be**2)
     
     # Compute the declination
-    decl = 2.0*np.arctan2(Be, Bh+Bn)
+    decl = np.arctan2(Be, Bn)
     
     # Check for bounds
     if Bh < 100.0:
-- 
2.43.0


From a63b3809813d0695e5efe0a45d89f43d3d0b8a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:01 +0000
Subject: [PATCH 195/202] fix: MJDs out of range on the command line raised an
 OverflowError

---
 lsl/misc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/parser.py b/lsl/misc/parser.py
index 9cabf38..657f246 100644
--- a/lsl/misc/parser.py
+++ b/lsl/misc/parser.py
@@ -306,7 +306,7 @@ def date(string):
     try:
         mjd = int(string, 10)
         dt = mjdmpm_to_datetime(mjd, 0)
-    except ValueError:
+    except (ValueError, OverflowError):
         cstring = string.replace('-', '/')
         try:
             dt = datetime.strptime("%s 00:00:00" % cstring, "%Y/%m/%d %H:%M:%S")
-- 
2.43.0


From 5233384b68bc9691367d849def8792f1b9c43981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:01 +0000
Subject: [PATCH 196/202] fix: NaN was accepted as a positive number on the
 command line

---
 lsl/misc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/parser.py b/lsl/misc/parser.py
index 657f246..eaeb271 100644
--- a/lsl/misc/parser.py
+++ b/lsl/misc/parser.py
@@ -64,7 +64,7 @@ def positive_or_zero_float(string):
     except ValueError:
         msg = f"{string} is a non-float value"
         raise ArgumentTypeError(msg)
-    if value < 0.0:
+    if not value >= 0.0:
         msg = f"{string} < 0.0"
         raise ArgumentTypeError(msg)
     return value
-- 
2.43.0


From f8e61a4d7a958c48b336769818d514dfe3f74b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:01 +0000
Subject: [PATCH 197/202] fix: colored text with backslashes or newlines was
 garbled

---
 lsl/common/color.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/color.py b/lsl/common/color.py
index ccf26ec..0ac38c0 100644
--- a/lsl/common/color.py
+++ b/lsl/common/color.py
@@ -114,7 +114,7 @@ def colorfy(text):
     # Parse 3 - Work at each level to convert the tags to ANSI sequences
     for level in range(max(levels), -1, -1):
         ## Build the regular expression needed for this depth
-        tagRE = re.compile('{{'+str(level)+'{{%(?P<tag>[a-zA-Z-]+) (?P<text>.*?)}}'+str(level)+'}}')
+        tagRE = re.compile('{{'+str(level)+'{{%(?P<tag>[a-zA-Z-]+) (?P<text>.*?)}}'+str(level)+'}}', re.DOTALL)
         
         ## Match and replace until there is nothing left to match
         pos = 0
@@ -135,7 +135,7 @@ def colorfy(text):
             repl = tag+txt
             repl = repl.replace(_COLORS['reset'], _COLORS['reset']+tag)
             repl = repl+_COLORS['reset']
-            text = tagRE.sub(repl, text, count=1)
+            text = tagRE.sub(lambda m: repl, text, count=1)
             
             ### Get the next match
             mtch = tagRE.search(text, pos)
-- 
2.43.0


From 2ec7c82fbb51c6141b5409aa8b48e3389cba063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:01 +0000
Subject: [PATCH 198/202] fix: text with unpaired braces could not be colored

---
 lsl/common/color.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/common/color.py b/lsl/common/color.py
index 0ac38c0..8ea78c5 100644
--- a/lsl/common/color.py
+++ b/lsl/common/color.py
@@ -59,13 +59,13 @@ def _label(text):
         ## there is a '%' immediately afterwards.  For closing we need to make 
         ## sure we actually have a valid level to close.
         if tag == '{{':
-            if post[0] == '%':
+            if post[:1] == '%':
                 tag = '{{'+str(level)+tag
                 level += 1
                 pos = pos + 4
         if tag == '}}':
-            level -=1
-            if level >= 0:
+            if level > 0:
+                level -=1
                 tag = tag+str(level)+'}}'
                 pos = pos + 4
         text = pre+tag+post
-- 
2.43.0


From 1b690b0594d6fa5c9c1d0d01aefe8a7b3e2236bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:01 +0000
Subject: [PATCH 199/202] fix: busy indicators could overwrite their final
 message and could not be stopped twice

---
 lsl/common/busy.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/lsl/common/busy.py b/lsl/common/busy.py
index e400d0f..eb6cf86 100644
--- a/lsl/common/busy.py
+++ b/lsl/common/busy.py
@@ -80,6 +80,9 @@ class BusyIndicator(object):
         """
         
         if self.thread is not None:
+            self.alive.clear()
+            self.thread.join()
+            
             if self.color is None:
                 out = "%s%s%s%s\n" % (self.message, 
                                       '.'*self._i, 
@@ -93,8 +96,6 @@ class BusyIndicator(object):
                                                        ' '*self.dots))
             sys.stdout.write(out)
             
-            self.alive.clear()
-            self.thread.join()
             self.thread = None
             self._i = 0
             
@@ -187,15 +188,17 @@ class BusyIndicatorPlus(BusyIndicator):
         return out
         
     def stop(self, success=True):
-        out = getattr(self, "_render_%s" % self.style)(active=False)
-        out = "%s%s%s\n" % (self.message, out, 'Done  ' if success else 'Failed')
-        sys.stdout.write(out)
-        
-        self.alive.clear()
-        self.thread.join()
-        self.thread = None
-        self._i = 0
-        self._dir = 1
+        if self.thread is not None:
+            self.alive.clear()
+            self.thread.join()
+            
+            out = getattr(self, "_render_%s" % self.style)(active=False)
+            out = "%s%s%s\n" % (self.message, out, 'Done  ' if success else 'Failed')
+            sys.stdout.write(out)
+            
+            self.thread = None
+            self._i = 0
+            self._dir = 1
         
     def _pprint(self):
         t = time.time() - self.t0
-- 
2.43.0


From 5df4fb2165a9af952921e5a13e433f92d42f6bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:18 +0000
Subject: [PATCH 200/202] fix: lsl.reader.buffer exported a TBFFrameBuffer that
 it does not have

---
 lsl/reader/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index fb8b5b2..4d41cca 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -39,7 +39,7 @@ from lsl.logger import LSL_LOGGER
 
 __version__ = '1.4'
 __all__ = ['FrameBufferBase', 'DRXFrameBuffer', 'DRX8FrameBuffer', 
-           'TBFFrameBuffer', 'VDIFFrameBuffer', 'TBXFrameBuffer']
+           'VDIFFrameBuffer', 'TBXFrameBuffer']
 
 
 def _cmp_frames(x, y):
-- 
2.43.0


From 70645f57544ce069b19c96c00118e67c058c9cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:39 +0000
Subject: [PATCH 201/202] fix: TBXFile could not zero-fill gaps in converted
 TBF data, whose frames are 7840 ticks apart

---
 lsl/reader/ldp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index cdb8fbc..4375837 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1751,13 +1751,13 @@ class TBXFile(LDPFileBase):
                 aStand = 0
                 if self._timetag == 0:
                     pass
-                elif cTimetag != self._timetag + 8192:
-                    missing = (cTimetag - self._timetag - 8192) / float(8192)
+                elif cTimetag != self._timetag + timetagSkip:
+                    missing = (cTimetag - self._timetag - timetagSkip) / float(timetagSkip)
                     if int(missing) == missing and missing < LDP_CONFIG.get('tbx_autofill_size'):
                         LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
-                            m = self._timetag + 8192*(m+1)
+                            m = self._timetag + timetagSkip*(m+1)
                             try:
                                 baseframe = copy.deepcopy(cFrames[0])
                             except (NameError, IndexError):
-- 
2.43.0


From c9aa8cae77d17cdd1f1437262a3f793ea03426ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:05 +0000
Subject: [PATCH 202/202] fix: short zenith integrations shifted the source
 table of measurement sets

---
 lsl/writer/measurementset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index c5c4789..cf1afc6 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -509,6 +509,10 @@ try:
                             equPo = self._get_source_position(dataSet.source, date).transform_to(FK5(equinox='J2000'))
                             equPo = astro.equ_posn.from_astropy(equPo)
                             
+                        # Zenith pointings that are close in time share a name
+                        if name in nameList:
+                            continue
+                            
                         # J2000 zenith equatorial coordinates
                         posList.append( [[equPo.ra*np.pi/180, equPo.dec*np.pi/180],] )
                         
-- 
2.43.0

