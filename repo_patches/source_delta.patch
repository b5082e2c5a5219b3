From 141068c37d635f6e8b9488a05a74025a18cffd63 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:35 +0000
Subject: [PATCH 01/28] fix: do not underflow the exponent of tiny samples in
 float output

---
 src/lc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lc3.c b/src/lc3.c
index fe73d69..a635166 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -556,7 +556,7 @@ static void store_float(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        float s = lc3_ldexpf(*xs, -15);
+        float s = *xs * (1.f / (1 << 15));
         *pcm = fminf(fmaxf(s, -1.f), 1.f);
     }
 }
-- 
2.43.0


From db4e7cd0a36d331981a57a767c72e60c707ce170 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:35 +0000
Subject: [PATCH 02/28] fix: saturate decoded samples before the conversion to
 integer

---
 src/lc3.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lc3.c b/src/lc3.c
index a635166..85c6ed5 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -484,7 +484,8 @@ static void store_s16(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        int32_t s = *xs >= 0 ? (int)(*xs + 0.5f) : (int)(*xs - 0.5f);
+        float x = fminf(fmaxf(*xs, -0x1p15f), 0x1p15f);
+        int32_t s = x >= 0 ? (int)(x + 0.5f) : (int)(x - 0.5f);
         *pcm = LC3_SAT16(s);
     }
 }
@@ -506,8 +507,9 @@ static void store_s24(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        int32_t s = *xs >= 0 ? (int32_t)(lc3_ldexpf(*xs, 8) + 0.5f)
-                             : (int32_t)(lc3_ldexpf(*xs, 8) - 0.5f);
+        float x = fminf(fmaxf(*xs, -0x1p15f), 0x1p15f);
+        int32_t s = x >= 0 ? (int32_t)(lc3_ldexpf(x, 8) + 0.5f)
+                           : (int32_t)(lc3_ldexpf(x, 8) - 0.5f);
         *pcm = LC3_SAT24(s);
     }
 }
@@ -529,8 +531,9 @@ static void store_s24_3le(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += 3*stride) {
-        int32_t s = *xs >= 0 ? (int32_t)(lc3_ldexpf(*xs, 8) + 0.5f)
-                             : (int32_t)(lc3_ldexpf(*xs, 8) - 0.5f);
+        float x = fminf(fmaxf(*xs, -0x1p15f), 0x1p15f);
+        int32_t s = x >= 0 ? (int32_t)(lc3_ldexpf(x, 8) + 0.5f)
+                           : (int32_t)(lc3_ldexpf(x, 8) - 0.5f);
 
         s = LC3_SAT24(s);
         pcm[0] = (s >>  0) & 0xff;
-- 
2.43.0


From 4fe5dc703961b60c2600da110a8809358204c0f7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:35 +0000
Subject: [PATCH 03/28] fix: decode int32_t samples of the C++ interface as 24
 bits in 32 bits

---
 include/lc3_cpp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 31002ec..6542660 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -275,7 +275,7 @@ class Decoder : public Base<struct lc3_decoder> {
   }
 
   int Decode(const uint8_t *in, int block_size, int32_t *pcm) {
-    return DecodeImpl(in, block_size, PcmFormat::kS24In3Le, pcm);
+    return DecodeImpl(in, block_size, PcmFormat::kS24, pcm);
   }
 
   int Decode(const uint8_t *in, int block_size, float *pcm) {
-- 
2.43.0


From 233a2ec78e1026b29a81ea36ebe6c475794e635b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:35 +0000
Subject: [PATCH 04/28] fix: conceal every channel of a lost block in the C++
 interface

---
 include/lc3_cpp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 6542660..2f605a3 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -219,7 +219,7 @@ class Decoder : public Base<struct lc3_decoder> {
       ret |= lc3_decode(states[ich].get(), in_ptr, frame_size,
                         cfmt, pcm + ich, nchannels_);
 
-      in_ptr += frame_size;
+      if (in_ptr) in_ptr += frame_size;
     }
 
     return ret;
-- 
2.43.0


From 4f3e7f1191ee9878bed7263ea0098300fc8ee965 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:13 +0000
Subject: [PATCH 05/28] fix: pad short floating point input of the Python
 encoder

---
 python/lc3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index 8c4ae71..8b46a47 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -345,7 +345,7 @@ class Encoder(_Base):
             if not abs(sum(pcm_buffer)) / frame_samples < 2:
                 raise InvalidArgumentError("Out of range PCM input")
 
-            padding = max(pcm_len - frame_samples, 0)
+            padding = max(pcm_len - len(pcm_buffer), 0)
             pcm_buffer.extend(array.array("f", [0] * padding))
 
         else:
-- 
2.43.0


From d7cc3531832d7aba71955aeef381cc2779dedf2b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:07 +0000
Subject: [PATCH 06/28] fix: release the memory of the Python encoder and
 decoder objects

---
 python/lc3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/lc3.py b/python/lc3.py
index 8b46a47..e284d1c 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -300,7 +300,8 @@ class Encoder(_Base):
     def __del__(self) -> None:
 
         try:
-            (self.free(encoder) for encoder in self.__encoders)
+            for encoder in self.__encoders:
+                self.free(encoder)
         finally:
             return
 
@@ -466,7 +467,8 @@ class Decoder(_Base):
     def __del__(self) -> None:
 
         try:
-            (self.free(decoder) for decoder in self.__decoders)
+            for decoder in self.__decoders:
+                self.free(decoder)
         finally:
             return
 
-- 
2.43.0


From c5f4f58093317527a2228ddcf3488b8b14148cdf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:56 +0000
Subject: [PATCH 07/28] fix: skip the extension of the WAVE format chunk in the
 right direction

---
 tools/wave.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wave.c b/tools/wave.c
index 126f913..90fd8de 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -112,7 +112,7 @@ int wave_read_header(FILE *fp, int *bitdepth, int *samplesize,
             || format.byterate   != format.samplerate * format.framesize)
         return -1;
 
-    fseek(fp, sizeof(format) - (8 + format.size), SEEK_CUR);
+    fseek(fp, (long)(8 + format.size) - (long)sizeof(format), SEEK_CUR);
 
     for ( ; fread(&data, sizeof(data), 1, fp) == 1 && data.id != WAVE_DATA_ID
           ; fseek(fp, data.size, SEEK_CUR) );
-- 
2.43.0


From cf5c1e58093e81e24e0aef39f7c6bed2c9139b42 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:56 +0000
Subject: [PATCH 08/28] fix: skip the padding byte after odd-sized WAVE chunks

---
 tools/wave.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wave.c b/tools/wave.c
index 90fd8de..47cf94b 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -115,7 +115,7 @@ int wave_read_header(FILE *fp, int *bitdepth, int *samplesize,
     fseek(fp, (long)(8 + format.size) - (long)sizeof(format), SEEK_CUR);
 
     for ( ; fread(&data, sizeof(data), 1, fp) == 1 && data.id != WAVE_DATA_ID
-          ; fseek(fp, data.size, SEEK_CUR) );
+          ; fseek(fp, (long)data.size + (data.size & 1), SEEK_CUR) );
 
     if (feof(fp))
       return -1;
-- 
2.43.0


From 1f7755bc888adb74af6bc0d445c4a60c466f1ed4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:56 +0000
Subject: [PATCH 09/28] fix: write no more samples than the stream holds when
 shorter than a frame

---
 tools/dlc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 8c22ba1..9f2ca43 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -252,7 +252,7 @@ int main(int argc, char *argv[])
 
         int pcm_offset = i > 0 ? 0 : encode_samples - pcm_samples;
         int pcm_nwrite = MIN(frame_samples - pcm_offset,
-            encode_samples - i*frame_samples);
+            encode_samples - i*frame_samples - pcm_offset);
 
         wave_write_pcm(fp_out,
             pcm_sbytes, pcm, nchannels, pcm_offset, pcm_nwrite);
-- 
2.43.0


From b1d237288a97898ef535a9699177a27ccb26b149 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:36 +0000
Subject: [PATCH 10/28] fix: accept fractional frame durations in the Python
 encoder tool

---
 python/tools/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/tools/encoder.py b/python/tools/encoder.py
index 3246c4c..ffc2902 100755
--- a/python/tools/encoder.py
+++ b/python/tools/encoder.py
@@ -57,7 +57,7 @@ stream_length = wavfile.getnframes()
 # --- Setup encoder ---
 
 enc = lc3.Encoder(
-    int(args.frame_duration)*1000, samplerate, nchannels, libpath=args.libpath)
+    int(args.frame_duration * 1000), samplerate, nchannels, libpath=args.libpath)
 frame_size = enc.get_frame_bytes(args.bitrate)
 frame_length = enc.get_frame_samples()
 bitrate = enc.resolve_bitrate(frame_size)
-- 
2.43.0


From c870c1b172b18b4dd1d8029088ac1e1c0fc266b3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:36 +0000
Subject: [PATCH 11/28] fix: flush the codec delay in the Python encoder tool

---
 python/tools/encoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/tools/encoder.py b/python/tools/encoder.py
index ffc2902..581457c 100755
--- a/python/tools/encoder.py
+++ b/python/tools/encoder.py
@@ -61,6 +61,7 @@ enc = lc3.Encoder(
 frame_size = enc.get_frame_bytes(args.bitrate)
 frame_length = enc.get_frame_samples()
 bitrate = enc.resolve_bitrate(frame_size)
+encoded_length = stream_length + enc.get_delay_samples()
 
 # --- Setup output ---
 
@@ -72,7 +73,7 @@ f_lc3.write(struct.pack(
 
 # --- Encoding loop ---
 
-for i in range(0, stream_length, frame_length):
+for i in range(0, encoded_length, frame_length):
 
     f_lc3.write(struct.pack('=H', frame_size))
 
-- 
2.43.0


From 7527111a6f080f02a041c6b56cf7670cd4bc8101 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:46 +0000
Subject: [PATCH 12/28] fix: refuse the high-resolution mode when it is left
 out of the build

---
 src/lc3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lc3.c b/src/lc3.c
index 85c6ed5..f6d0c24 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -72,7 +72,8 @@ static enum lc3_dt resolve_dt(int us, bool hrmode)
  */
 static enum lc3_srate resolve_srate(int hz, bool hrmode)
 {
-    hrmode = LC3_PLUS_HR && hrmode;
+    if (!LC3_PLUS_HR && hrmode)
+        return LC3_NUM_SRATE;
 
     return !hrmode && hz ==  8000 ? LC3_SRATE_8K     :
            !hrmode && hz == 16000 ? LC3_SRATE_16K    :
-- 
2.43.0


From 4fc498a9bbc46fc01ddd878f596ebfbcc62a61b7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:13 +0000
Subject: [PATCH 13/28] fix: do not overflow the bit estimation of loud
 high-resolution spectra

---
 src/spec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec.c b/src/spec.c
index 25a28d4..96ec0e3 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -151,7 +151,7 @@ LC3_HOT static int estimate_gain(
 
     for (int i = 128, j, j0 = n4-1, j1 ; i > 0; i >>= 1) {
         int gn = (g_int - i) * k_20_28;
-        int v = 0;
+        int64_t v = 0;
 
         for (j = j0; j >= 0 && e[j].q16 < gn; j--);
 
-- 
2.43.0


From c9645394fd0f1e3bd8dcd923a4835c049b8b7a6e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:49 +0000
Subject: [PATCH 14/28] fix: code a null pair when the whole spectrum is
 truncated

The count of coefficients signalled is at least 2, but no pair was coded
when the spectrum had been truncated to nothing; the decoder then read a
pair of arbitrary values from the tail of the arithmetic coder.
---
 src/spec.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spec.c b/src/spec.c
index 96ec0e3..00efef4 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -865,6 +865,12 @@ void lc3_spec_analyze(
     side->g_idx = g_int + g_adj + g_off;
     nbits = compute_nbits(dt, sr, nbytes,
         x, &side->nq, nbits_budget, &side->lsb_mode);
+
+    /* --- The bitstream always holds one pair, code it null when the
+     *     spectrum is, or has been entirely truncated --- */
+
+    if (side->nq < 2)
+        x[0] = x[1] = 0, side->nq = 2;
 }
 
 /**
-- 
2.43.0


From 17e7ae26e2a4ae75ab5b737239993456218f19bd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:27:13 +0000
Subject: [PATCH 15/28] fix: C++ classes: PCM rates below zero stand for the
 codec rate

As in the C set-up functions: the memory was allocated for an unsupported
rate, hence of null size, but the set-up succeeded and wrote over it.
---
 include/lc3_cpp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 2f605a3..dc7c3d6 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -53,7 +53,7 @@ class Base {
   Base(int dt_us, int sr_hz, int sr_pcm_hz, size_t nchannels, bool hrmode)
       : dt_us_(dt_us),
         sr_hz_(sr_hz),
-        sr_pcm_hz_(sr_pcm_hz == 0 ? sr_hz : sr_pcm_hz),
+        sr_pcm_hz_(sr_pcm_hz <= 0 ? sr_hz : sr_pcm_hz),
         nchannels_(nchannels),
         hrmode_(hrmode) {
     states.reserve(nchannels_);
-- 
2.43.0


From bf8fa7fc67f7b0efde2496fcc59196a15fb9c540 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:29:54 +0000
Subject: [PATCH 16/28] fix: Python classes: PCM rates below zero stand for the
 codec rate

As in the C set-up functions: the memory was allocated for an unsupported
rate, hence of null size, but the set-up succeeded and wrote over it.
---
 python/lc3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index e284d1c..b268899 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -61,7 +61,7 @@ class _Base:
         self.hrmode = hrmode
         self.frame_duration_us = frame_duration_us
         self.sample_rate_hz = sample_rate_hz
-        self.pcm_sample_rate_hz = pcm_sample_rate_hz or self.sample_rate_hz
+        self.pcm_sample_rate_hz = max(pcm_sample_rate_hz or 0, 0) or self.sample_rate_hz
         self.num_channels = num_channels
 
         if self.frame_duration_us not in [2500, 5000, 7500, 10000]:
-- 
2.43.0


From ce48f81df21673d2157660fbcf16b1ef6fa658e8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:29:54 +0000
Subject: [PATCH 17/28] fix: Python encoder refused multichannel input within
 the range

The sum over all the channels was compared to the length of one.
---
 python/lc3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index b268899..08f1c76 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -343,7 +343,7 @@ class Encoder(_Base):
             pcm_buffer = array.array("f", pcm)
 
             # Invert test to catch NaN
-            if not abs(sum(pcm_buffer)) / frame_samples < 2:
+            if not abs(sum(pcm_buffer)) < 2 * max(len(pcm_buffer), pcm_len):
                 raise InvalidArgumentError("Out of range PCM input")
 
             padding = max(pcm_len - len(pcm_buffer), 0)
-- 
2.43.0


From 7dcae81090ab9ebf6e0b0cf24c25fe8517620e48 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:29:54 +0000
Subject: [PATCH 18/28] fix: Python classes leaked the memory of a codec whose
 set-up fails

---
 python/lc3.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/python/lc3.py b/python/lc3.py
index 08f1c76..6fae2a3 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -283,17 +283,21 @@ class Encoder(_Base):
         ]
 
         def new_encoder():
-            return lib.lc3_hr_setup_encoder(
+            mem = self.malloc(
+                lib.lc3_hr_encoder_size(
+                    self.hrmode, self.frame_duration_us, self.pcm_sample_rate_hz
+                )
+            )
+            encoder = lib.lc3_hr_setup_encoder(
                 self.hrmode,
                 self.frame_duration_us,
                 self.sample_rate_hz,
                 self.pcm_sample_rate_hz,
-                self.malloc(
-                    lib.lc3_hr_encoder_size(
-                        self.hrmode, self.frame_duration_us, self.pcm_sample_rate_hz
-                    )
-                ),
+                mem,
             )
+            if not encoder:
+                self.free(mem)
+            return encoder
 
         self.__encoders = [new_encoder() for _ in range(num_channels)]
 
@@ -450,17 +454,21 @@ class Decoder(_Base):
         ]
 
         def new_decoder():
-            return lib.lc3_hr_setup_decoder(
+            mem = self.malloc(
+                lib.lc3_hr_decoder_size(
+                    self.hrmode, self.frame_duration_us, self.pcm_sample_rate_hz
+                )
+            )
+            decoder = lib.lc3_hr_setup_decoder(
                 self.hrmode,
                 self.frame_duration_us,
                 self.sample_rate_hz,
                 self.pcm_sample_rate_hz,
-                self.malloc(
-                    lib.lc3_hr_decoder_size(
-                        self.hrmode, self.frame_duration_us, self.pcm_sample_rate_hz
-                    )
-                ),
+                mem,
             )
+            if not decoder:
+                self.free(mem)
+            return decoder
 
         self.__decoders = [new_decoder() for i in range(num_channels)]
 
-- 
2.43.0


From c484163d760ca4416ffaf0bd5dc7b7d62389d3d9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:31:46 +0000
Subject: [PATCH 19/28] fix: Python classes on a library without the
 high-resolution interface

The pointers given to and returned by the set-up functions were truncated to
32 bits, and the bitrate was divided by two whatever the number of channels.
---
 python/lc3.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index 6fae2a3..03e7c76 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -107,7 +107,7 @@ class _Base:
             )
             lc3_hr_frame_block_bytes = (
                 lambda hrmode, dt_us, sr_hz, num_channels, bitrate: num_channels
-                * lib.lc3_frame_bytes(dt_us, bitrate // 2)
+                * lib.lc3_frame_bytes(dt_us, bitrate // num_channels)
             )
             lc3_hr_resolve_bitrate = (
                 lambda hrmode, dt_us, sr_hz, nbytes: lib.lc3_resolve_bitrate(
@@ -255,6 +255,12 @@ class Encoder(_Base):
             if self.hrmode:
                 raise InitializationError("High-Resolution interface not available")
 
+            lib.lc3_encoder_size.argtypes = [c_int, c_int]
+            lib.lc3_encoder_size.restype = c_uint
+
+            lib.lc3_setup_encoder.argtypes = [c_int, c_int, c_int, c_void_p]
+            lib.lc3_setup_encoder.restype = self.c_encoder_t
+
             lc3_hr_encoder_size = lambda hrmode, dt_us, sr_hz: lib.lc3_encoder_size(
                 dt_us, sr_hz
             )
@@ -426,6 +432,12 @@ class Decoder(_Base):
             if self.hrmode:
                 raise InitializationError("High-Resolution interface not available")
 
+            lib.lc3_decoder_size.argtypes = [c_int, c_int]
+            lib.lc3_decoder_size.restype = c_uint
+
+            lib.lc3_setup_decoder.argtypes = [c_int, c_int, c_int, c_void_p]
+            lib.lc3_setup_decoder.restype = self.c_decoder_t
+
             lc3_hr_decoder_size = lambda hrmode, dt_us, sr_hz: lib.lc3_decoder_size(
                 dt_us, sr_hz
             )
-- 
2.43.0


From f9df5168bd5e46b6ac9369ae9afce0a0be08d9db Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:34:29 +0000
Subject: [PATCH 20/28] fix: size of frame blocks at the highest bitrates

The bitrate was clipped to 8 times the highest of the high-resolution mode,
below what 5 channels and more of 2.5 ms frames of the largest size take:
INT_MAX did not return the maximum size.
---
 src/lc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lc3.c b/src/lc3.c
index f6d0c24..d8997db 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -116,7 +116,7 @@ LC3_EXPORT int lc3_hr_frame_block_bytes(
             || nchannels < 1 || nchannels > 8 || bitrate < 0)
         return -1;
 
-    bitrate = LC3_CLIP(bitrate, 0, 8*LC3_HR_MAX_BITRATE);
+    bitrate = LC3_MIN(bitrate, INT_MAX / LC3_NUM_DT);
 
     return LC3_CLIP((bitrate * (int)(1 + dt)) / 3200,
         nchannels * lc3_min_frame_bytes(dt, sr),
-- 
2.43.0


From 813aec598cb08f54813e6f1d6478a9aa410922c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:45:11 +0000
Subject: [PATCH 21/28] fix: read WAVE files with extra chunks from a pipe

The chunks that precede the samples were skipped by seeking, which fails
when the file is read from a pipe: the content of the chunk was then taken
as the next chunks.
---
 tools/wave.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tools/wave.c b/tools/wave.c
index 47cf94b..7890d8f 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -87,6 +87,14 @@ struct wave_data {
 };
 
 
+/**
+ * Skip bytes of the input, that may not be seekable
+ */
+static void skip_bytes(FILE *fp, uint64_t count)
+{
+    for ( ; count > 0 && fgetc(fp) != EOF; count-- );
+}
+
 /**
  * Read WAVE file header
  */
@@ -112,10 +120,10 @@ int wave_read_header(FILE *fp, int *bitdepth, int *samplesize,
             || format.byterate   != format.samplerate * format.framesize)
         return -1;
 
-    fseek(fp, (long)(8 + format.size) - (long)sizeof(format), SEEK_CUR);
+    skip_bytes(fp, 8 + (uint64_t)format.size - sizeof(format));
 
     for ( ; fread(&data, sizeof(data), 1, fp) == 1 && data.id != WAVE_DATA_ID
-          ; fseek(fp, (long)data.size + (data.size & 1), SEEK_CUR) );
+          ; skip_bytes(fp, (uint64_t)data.size + (data.size & 1)) );
 
     if (feof(fp))
       return -1;
-- 
2.43.0


From 72482d065c9d04cefeb974bca258a1ae83bdfcc9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:45:11 +0000
Subject: [PATCH 22/28] fix: read WAVE files whose format chunk is not the
 first one

A chunk before the format (JUNK, bext, ...) made the file refused. Format
chunks too short, or whose frame size is not a multiple of the channels, are
now refused, and the padding of an odd one is skipped.
---
 tools/wave.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/tools/wave.c b/tools/wave.c
index 7890d8f..4bc559a 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -110,17 +110,27 @@ int wave_read_header(FILE *fp, int *bitdepth, int *samplesize,
             || file.fmt_id  != WAVE_FILE_FMT_ID)
         return -1;
 
-    if (fread(&format, sizeof(format), 1, fp) != 1
-            || format.id         != WAVE_FORMAT_ID
+    for ( ; fread(&data, sizeof(data), 1, fp) == 1 && data.id != WAVE_FORMAT_ID
+          ; skip_bytes(fp, (uint64_t)data.size + (data.size & 1)) )
+        if (data.id == WAVE_DATA_ID)
+            return -1;
+
+    format.id = data.id, format.size = data.size;
+
+    if (feof(fp)
+            || format.size < sizeof(format) - sizeof(data)
+            || fread(&format.fmt, sizeof(format) - sizeof(data), 1, fp) != 1
             || ( format.fmt      != WAVE_FORMAT_PCM &&
                  format.fmt      != WAVE_FORMAT_EXT   )
             || format.channels   <= 0
             || format.samplerate <= 0
             || format.framesize  <= 0
+            || format.framesize % format.channels
             || format.byterate   != format.samplerate * format.framesize)
         return -1;
 
-    skip_bytes(fp, 8 + (uint64_t)format.size - sizeof(format));
+    skip_bytes(fp, sizeof(data) + (uint64_t)format.size
+        + (format.size & 1) - sizeof(format));
 
     for ( ; fread(&data, sizeof(data), 1, fp) == 1 && data.id != WAVE_DATA_ID
           ; skip_bytes(fp, (uint64_t)data.size + (data.size & 1)) );
-- 
2.43.0


From aa795014f13ac6ed648f70ce30a4cfa4673de59a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:45:27 +0000
Subject: [PATCH 23/28] fix: do not encode the chunks that follow the samples
 of a WAVE file

Whatever followed the data chunk (LIST, id3, ...) was encoded as samples in
the blocks that flush the codec, and heard at the end of the recording.
---
 tools/elc3.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/elc3.c b/tools/elc3.c
index dec8bb0..20937d8 100644
--- a/tools/elc3.c
+++ b/tools/elc3.c
@@ -239,7 +239,11 @@ int main(int argc, char *argv[])
 
     for (int i = 0; i * frame_samples < encode_samples; i++) {
 
-        int nread = wave_read_pcm(fp_in, pcm_sbytes, nchannels, frame_samples, pcm);
+        int nwanted = nsamples - i * frame_samples;
+        nwanted = nwanted < 0 ? 0 :
+            nwanted > frame_samples ? frame_samples : nwanted;
+
+        int nread = wave_read_pcm(fp_in, pcm_sbytes, nchannels, nwanted, pcm);
 
         memset(pcm + nread * nchannels * pcm_sbytes, 0,
             nchannels * (frame_samples - nread) * pcm_sbytes);
-- 
2.43.0


From 9f389ab6dcc325d35a8e76fb40cc56dee07bbdba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:45:27 +0000
Subject: [PATCH 24/28] fix: conceal the frames of illegal size in dlc3

The decoder refuses them and writes nothing: the samples of the previous
block, or uninitialised memory for the first one, were written instead.
---
 tools/dlc3.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 9f2ca43..8e6acc0 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -245,6 +245,10 @@ int main(int argc, char *argv[])
                 int res = lc3_decode(dec[ich], in_ptr, frame_bytes,
                     pcm_fmt, pcm + ich * pcm_sbytes, nchannels);
 
+                if (res < 0)
+                    lc3_decode(dec[ich], NULL, 0,
+                        pcm_fmt, pcm + ich * pcm_sbytes, nchannels);
+
                 nerr += (res != 0);
                 in_ptr += frame_bytes;
             }
-- 
2.43.0


From d27276605bab1d59e73bb0d9ad38ee315603208f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:45:27 +0000
Subject: [PATCH 25/28] fix: refuse a bit depth of 0 in dlc3

Option '-b 0', or '-b' followed by a word, wrote a WAVE file with samples of
no bits.
---
 tools/dlc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 8e6acc0..86a82e1 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -155,7 +155,7 @@ int main(int argc, char *argv[])
     if (p.fname_out && (fp_out = fopen(p.fname_out, "wb")) == NULL)
         error(errno, "%s", p.fname_out);
 
-    if (p.bitdepth && p.bitdepth != 16 && p.bitdepth != 24)
+    if (p.bitdepth != 16 && p.bitdepth != 24)
         error(EINVAL, "Bitdepth %d", p.bitdepth);
 
     /* --- Check parameters --- */
-- 
2.43.0


From 693e638f9faf725772b4f3ea39a84f2aee37e423 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:46:09 +0000
Subject: [PATCH 26/28] fix: decode high-resolution streams with the Python
 tool

The extension of the file header, that tells the high-resolution mode, was
taken as the first block.
---
 python/tools/decoder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/tools/decoder.py b/python/tools/decoder.py
index 7cc5127..89aa3dd 100755
--- a/python/tools/decoder.py
+++ b/python/tools/decoder.py
@@ -48,7 +48,7 @@ args = parser.parse_args()
 f_lc3 = args.lc3_file
 
 header = struct.unpack('=HHHHHHHI', f_lc3.read(18))
-if header[0] != 0xcc1c:
+if header[0] != 0xcc1c or header[1] < 18:
     raise ValueError('Invalid bitstream file')
 
 samplerate = header[2] * 100
@@ -56,6 +56,9 @@ nchannels = header[4]
 frame_duration = header[5] * 10
 stream_length = header[7]
 
+header_ext = f_lc3.read(header[1] - 18)
+hrmode = len(header_ext) >= 2 and any(header_ext[:2])
+
 # --- Setup output ---
 
 bit_depth = args.bit_depth
@@ -71,7 +74,7 @@ wavfile.setnframes(stream_length)
 # --- Setup decoder ---
 
 dec = lc3.Decoder(
-    frame_duration, samplerate, nchannels, libpath=args.libpath)
+    frame_duration, samplerate, nchannels, hrmode=hrmode, libpath=args.libpath)
 frame_length = dec.get_frame_samples()
 encoded_length = stream_length + dec.get_delay_samples()
 
-- 
2.43.0


From 8b513d8608bcefe3914910ae359177f570d92c33 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:46:09 +0000
Subject: [PATCH 27/28] fix: decode truncated streams with the Python tool

As with dlc3, the blocks that are missing are silence: the tool raised an
error, and left a WAVE file with an invalid header.
---
 python/tools/decoder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/tools/decoder.py b/python/tools/decoder.py
index 89aa3dd..ccf7933 100755
--- a/python/tools/decoder.py
+++ b/python/tools/decoder.py
@@ -82,8 +82,12 @@ encoded_length = stream_length + dec.get_delay_samples()
 
 for i in range(0, encoded_length, frame_length):
 
-    lc3_frame_size = struct.unpack('=H', f_lc3.read(2))[0]
-    pcm = dec.decode(f_lc3.read(lc3_frame_size), bit_depth=bit_depth)
+    lc3_frame_size = int.from_bytes(f_lc3.read(2), sys.byteorder)
+    lc3_frame = f_lc3.read(lc3_frame_size)
+    if lc3_frame and len(lc3_frame) == lc3_frame_size:
+        pcm = dec.decode(lc3_frame, bit_depth=bit_depth)
+    else:
+        pcm = bytes(frame_length * pcm_size)
 
     pcm = pcm[max(encoded_length - stream_length - i, 0) * pcm_size:
               min(encoded_length - i, frame_length) * pcm_size]
-- 
2.43.0


From ed9eeeed43aa816d81d7c689e99f962aa84ccb79 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:50:39 +0000
Subject: [PATCH 28/28] fix: read LC3 files with a longer header from a pipe

The rest of the header was skipped by seeking, which fails on a pipe: it was
then taken as the first blocks.
---
 tools/lc3bin.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/lc3bin.c b/tools/lc3bin.c
index 97ae82b..fcdaf5d 100644
--- a/tools/lc3bin.c
+++ b/tools/lc3bin.c
@@ -67,7 +67,12 @@ int lc3bin_read_header(FILE *fp,
     if (hdr.epmode)
       return -1;
 
-    fseek(fp, hdr.header_size, SEEK_SET);
+    /* Skip the rest of the header, the input may not be seekable */
+
+    int skip_bytes = hdr.header_size - sizeof(hdr)
+        - (num_extended_params >= 1 ? sizeof(hdr_hrmode) : 0);
+
+    for ( ; skip_bytes > 0 && fgetc(fp) != EOF; skip_bytes-- );
 
     return 0;
 }
-- 
2.43.0

