From edf7c2b77fa0d245a5902b15e5944ae1327d3f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:11 +0000
Subject: [PATCH 01/18] fix: include the headers the library itself uses

uint8_t & co. and memcpy were used without <stdint.h>/<string.h>, so the single header did not
compile unless the includer happened to pull them in first.
---
 include/colorsystem.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 28704ee..2e7d77a 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -15,7 +15,9 @@
 #include <string>
 
 #include <math.h>
+#include <stdint.h>
 #include <stdio.h>
+#include <string.h>
 #include <vector>
 
 namespace ColorSystem
-- 
2.43.0


From 4ad2b8998ed91c3ded8e991f7abde8619e227aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:11 +0000
Subject: [PATCH 02/18] fix: illuminant B white point

The published X of CIE illuminant B is 0.99072; 1.99072 is a typo.
---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 2e7d77a..be4a913 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1354,7 +1354,7 @@ class Spectrum
 
 // standard illuminants
 static constexpr Tristimulus Illuminant_A(1.09850f, 1.f, 0.35585f);
-static constexpr Tristimulus Illuminant_B(1.99072f, 1.f, 0.85223f);
+static constexpr Tristimulus Illuminant_B(0.99072f, 1.f, 0.85223f);
 static constexpr Tristimulus Illuminant_C(0.98074f, 1.0f, 1.18232f);
 static constexpr Tristimulus Illuminant_D50(0.96422f, 1.0f, 0.82521f);
 static constexpr Tristimulus Illuminant_D55(0.95682f, 1.0f, 0.92149f);
-- 
2.43.0


From dd94f3d2ce889e126cf7563eaf4f510304c156ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:11 +0000
Subject: [PATCH 03/18] fix: sign of an OKLab matrix coefficient

M1[1][0] is +0.0329845436 in the reference; with the minus sign XYZ (1,0,0) maps to a wrong colour
(OKLAB/test2).
---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index be4a913..d2164e9 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1421,7 +1421,7 @@ static const Tristimulus ICtCp_to_XYZ(const Tristimulus &icc)
 static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
 {
     // https://bottosson.github.io/posts/oklab/
-    constexpr auto m1  = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, -0.0329845436f, 0.9293118715f,
+    constexpr auto m1  = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, 0.0329845436f, 0.9293118715f,
          0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto m2  = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
          0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
@@ -1456,7 +1456,7 @@ static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
 
 static const Tristimulus OKLAB_to_XYZ(const Tristimulus &lab)
 {
-    constexpr auto    m1   = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, -0.0329845436f, 0.9293118715f,
+    constexpr auto    m1   = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, 0.0329845436f, 0.9293118715f,
              0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto    m2   = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
              0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
-- 
2.43.0


From 4d8a170c8506c9089ddb915e1ef8ebe63bb75611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:11 +0000
Subject: [PATCH 04/18] fix: XYZ_to_OKLAB must not print to stdout

Left-over debugging output: every conversion wrote the matrices to the caller's stdout.
---
 include/colorsystem.hpp | 24 ------------------------
 1 file changed, 24 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index d2164e9..bb34b28 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1425,30 +1425,6 @@ static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
          0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto m2  = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
          0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
-    constexpr auto m1i = m1.invert();
-    constexpr auto m2i = m2.invert();
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m1[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m2[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m1i[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m2i[i]);
-    }
-    printf("\n");
-
     const Tristimulus lms = xyz.apply(m1);
     const Tristimulus dash(cbrtf(lms[0]), cbrtf(lms[1]), cbrtf(lms[2]));
     return dash.apply(m2);
-- 
2.43.0


From 2a2061e8bded740e7509c00a19f9e081323a0f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:11 +0000
Subject: [PATCH 05/18] fix: S-Log3 encoding scales the logarithm, not its
 argument

Misplaced parenthesis: SLog3_to_Y(Y_to_SLog3(x)) was nowhere near x above the linear toe.
---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index bb34b28..2f19e33 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -671,7 +671,7 @@ class OTF
 
     static const float Y_to_SLog3(const float &x)
     {
-        const auto y = x > 0.01125f ? (420.f + log10f((x + 0.01f) / (0.19f) * 261.5f))
+        const auto y = x > 0.01125f ? (420.f + log10f((x + 0.01f) / (0.19f)) * 261.5f)
                                     : (x * (171.2102946929f - 95.f) / 0.01125f + 95.f);
         return y / 1023.f;
     }
-- 
2.43.0


From c9fa38527921c8dd9a454662e089b7dff1a6cb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:11 +0000
Subject: [PATCH 06/18] fix: MemoryStream::put_at must grow the buffer, not
 truncate it

The test was inverted: a store inside the buffer truncated it and then wrote one past its end, a store
outside wrote out of bounds.
---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 2f19e33..c1a9374 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -874,8 +874,8 @@ class MemoryStream
     }
     void put_at(size_t abs, uint8_t val)
     {
-        if (abs < buffer_.size())
-            buffer_.resize(abs);
+        if (abs >= buffer_.size())
+            buffer_.resize(abs + 1);
         buffer_[abs] = val;
     }
     size_t read_at(void *buffer, size_t s, Pointer p)
-- 
2.43.0


From 10dd2e1b64f1344974649472bf87326b935dda39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:11 +0000
Subject: [PATCH 07/18] fix: MemoryStream::putUint8 must advance when it
 overwrites

After seeking back, all bytes of a multi-byte value were written to the same place.
---
 include/colorsystem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index c1a9374..646dc57 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -925,6 +925,7 @@ class MemoryStream
         if (ptr_ < s)
         {
             buffer_[ptr_] = uc;
+            ptr_++;
             return;
         }
         else if (ptr_ == s)
-- 
2.43.0


From 6b98d89bb492446cbd7399809b590bb8b3039ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:11 +0000
Subject: [PATCH 08/18] fix: MemoryStream::putString/putSubstr

putSubstr(s, 0) ran through memory (len - 1 wraps), a len beyond the string read past its end, and
putString dropped the last character and the length get_string() reads back.
---
 include/colorsystem.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 646dc57..863c6c7 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1220,14 +1220,18 @@ class MemoryStream
     void putDouble(const double v) { putUint64(*(uint64_t *)&v); }
     void putSubstr(const std::string &str, size_t len)
     {
-        for (int i = 0; i < len - 1; i++)
+        for (size_t i = 0; i + 1 < len; i++)
         {
-            putUint8(str[i]);
+            putUint8(i < str.size() ? str[i] : 0);
         }
         if (len > 0)
             putUint8(0);
     }
-    void putString(const std::string &str) { putSubstr(str, str.size()); }
+    void putString(const std::string &str)
+    {
+        putUint32((uint32_t)str.size() + 1);
+        putSubstr(str, str.size() + 1);
+    }
 };
 
 static Gamut loadGamutFromICCProfileMemory(const void *mem, size_t size)
-- 
2.43.0


From 0e61f16766a2e9b0c9750e78d16b85d0b1f1cad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:11 +0000
Subject: [PATCH 09/18] fix: MemoryStream bulk access must stay inside the
 buffer

read_at truncated the position to int, so a position of 2^32 passed the check and was read out of
bounds; an empty buffer or the end position dereferenced a non-existing element.
---
 include/colorsystem.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 863c6c7..5420eab 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -823,7 +823,7 @@ class MemoryStream
         if (data)
         {
             buffer_.resize(sz);
-            memcpy(&(buffer_.front()), data, sz);
+            memcpy(buffer_.data(), data, sz);
         }
         else
         {
@@ -861,8 +861,8 @@ class MemoryStream
 
     void seekTo(Pointer p) { fseek((int)p, TOP); }
 
-    void *ptr(void) { return (void *)&(buffer_[ptr_]); }
-    void *ptr(Pointer p) { return (void *)&(buffer_[p]); }
+    void *ptr(void) { return (void *)(buffer_.data() + ptr_); }
+    void *ptr(Pointer p) { return (void *)(buffer_.data() + p); }
     bool  feof(void) { return ptr_ >= buffer_.size(); }
 
     // read absolute.
@@ -880,9 +880,9 @@ class MemoryStream
     }
     size_t read_at(void *buffer, size_t s, Pointer p)
     {
-        int r = (int)buffer_.size() - (int)p;
-        if (r < 0)
+        if (p >= buffer_.size())
             return 0;
+        size_t r      = buffer_.size() - p;
         size_t remain = (s < r) ? s : r;
         memcpy(buffer, ptr(p), remain);
         return remain;
-- 
2.43.0


From 6b5fc7e3beb1f5f063f2d6625a7d6b4fdbed1a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:11 +0000
Subject: [PATCH 10/18] fix: Spectrum::fetch interpolates the first interval
 and clamps far wavelengths

Between the first two samples the value stuck to the first one, and a wavelength far above the range
overflowed the int index and returned the first sample instead of the last (NaN: out of bounds).
---
 include/colorsystem.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 5420eab..bd03d07 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1253,12 +1253,12 @@ class Spectrum
         const float *sample, const int samples, const float &lo, const float &hi, const float &t)
     {
         const int   count = samples - 1;
-        const int   index = (int)(count * (t - lo) / (hi - lo));
+        const int   index = (t > lo && t < hi) ? (int)(count * (t - lo) / (hi - lo)) : 0;
         const float l     = index * (hi - lo) / count;
         const float h     = (index + 1) * (hi - lo) / count;
-        return (index >= count) ? sample[count]
-               : (index <= 0)   ? sample[0]
-                                : lerp(sample[index], sample[index + 1], (t - l - lo) / (h - l));
+        return !(t > lo)                      ? sample[0]
+               : (t >= hi || index >= count) ? sample[count]
+                                             : lerp(sample[index], sample[index + 1], (t - l - lo) / (h - l));
     }
     constexpr float fetch(const float &lambda) const { return fetch(s_.data(), 400, 380.f, 779.f, lambda); }
 
-- 
2.43.0


From bfadc9cc9ee5b98b001e1526ab601cf3b5a13cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:11 +0000
Subject: [PATCH 11/18] fix: hue normalisation must terminate for every hue

Repeated +-360 never reaches the range once 360 is below the float spacing (|hue| >= 2^33, infinities):
unbounded recursion.
---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index bd03d07..27e4b16 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -443,7 +443,7 @@ class Tristimulus
     // HSV
     static constexpr float mod360(const float &r)
     {
-        return (r < 0.f) ? mod360(r + 360.f) : ((r > 360.f) ? mod360(r - 360.f) : r);
+        return (r >= 0.f && r <= 360.f) ? r : ((r < 0.f) ? fmodf(r, 360.f) + 360.f : fmodf(r, 360.f));
     }
     static Tristimulus toHSV_atan(const Tristimulus &t)
     {
-- 
2.43.0


From 42133f12c31593e8fd7432849f37b25a8093690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:11 +0000
Subject: [PATCH 12/18] fix: Planckian locus coefficients between 2222K and
 4000K

The middle piece repeated the coefficients of the first one, leaving a jump at 4000K.
---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 27e4b16..299dbb2 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -360,7 +360,7 @@ class Tristimulus
         const float y =
             (T < 2222.f)
                 ? ((-1.1063814f * x * x * x) - (1.34811020f * x * x) + (2.18555832f * x) - 0.20219683f)
-                : ((T < 4000.f) ? ((-1.1063814f * x * x * x - 1.34811020f * x * x + 2.18555832f * x - 0.20219683f))
+                : ((T < 4000.f) ? ((-0.9549476f * x * x * x - 1.37418593f * x * x + 2.09137015f * x - 0.16748867f))
                                 : ((3.0817580f * x * x * x - 5.87338670f * x * x + 3.75112997f * x - 0.37001483f)));
         return Tristimulus(Y, x, y).fromYxy();
     }
-- 
2.43.0


From 9d29bd35d562bb02e0d6bbd4783c92f4d7e33d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:11 +0000
Subject: [PATCH 13/18] fix: hc and hc^2 in Planck's law

The two products did not match h and c given next to them (0.08% too small).
---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 299dbb2..dfba38a 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1279,8 +1279,8 @@ class Spectrum
         static const double h    = 6.62606896e-34; // Plank constant         J s
         static const double c    = 2.99792458e+8;  // Speed of light         m/s
         static const double k    = 1.38064880e-23; // Boltzmann constant     J/K
-        static const double hc   = 1.984832809e-25;
-        static const double hcc  = 5.950379064e-17;
+        static const double hc   = 1.986445501e-25;
+        static const double hcc  = 5.955213865e-17;
         static const double hc_k = 1.438776827e-2;
         static const double arg1 = 2 * hcc;                                     // J*s*m/s*m/s                 = J*m^2/s
         static const double arg2 = (h * c) / k;                                 // J*s*m/s / (J/K) = J*m/(J/K) = m * K
-- 
2.43.0


From 93fa8e549fc90824c547b7c2ed81e6d8d7c7cac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:08 +0000
Subject: [PATCH 14/18] fix: SOLVER::solve must report that svdcmp failed

svdcmp returns -1 on failure and never 0, but solve() looked for 0: a system with fewer equations than
unknowns was reported as solved.
---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index dfba38a..7150f73 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7741,7 +7741,7 @@ namespace SOLVER
         float  wmax, thresh;
 
         int r = svdcmp(A, W, V);
-        if (r == 0)
+        if (r < 0)
         {
             return r;
         }
-- 
2.43.0


From b8fc16538b223dcffa2c8f79a61aa822da61165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:08 +0000
Subject: [PATCH 15/18] fix: Corrector::solve must not read past the shorter of
 patch and target

---
 include/colorsystem.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 7150f73..635094f 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7777,14 +7777,15 @@ class Corrector
     static Matrix3 solve(const std::vector<Tristimulus> &patch, const std::vector<Tristimulus> &target)
     {
         // M*A = B, M and B are known. solve A.
-        int row_count = (int)(patch.size() + 1) * 3; // forex, (24+1)*3 = 75
+        const size_t patch_count = std::min(patch.size(), target.size());
+        int          row_count   = (int)(patch_count + 1) * 3; // forex, (24+1)*3 = 75
         int col_count = 9;
 
         SOLVER::Matrix matrix(row_count, col_count); // M. (75*9)
         SOLVER::Vector result(row_count);            // B.  75
         SOLVER::Vector x(col_count);                 // A.     9
 
-        for (int i = 0; i < patch.size() * 3; i += 3)
+        for (int i = 0; i < patch_count * 3; i += 3)
         {
             // each patch
             for (int c = 0; c < col_count; c++)
@@ -7809,7 +7810,7 @@ class Corrector
 
         // 0 restriction.
         {
-            int i = (int)patch.size() * 3;
+            int i = (int)patch_count * 3;
             for (int c = 0; c < col_count; c++)
             {
                 matrix[i + 0][c] = 0.f;
-- 
2.43.0


From 2e14c2376fe70bd6d64a638b8f695f1c23040799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:14 +0000
Subject: [PATCH 16/18] fix: MemoryStream writes at offsets whose end wraps
 around no longer leave the buffer

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 635094f..c9b6e54 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -875,7 +875,7 @@ class MemoryStream
     void put_at(size_t abs, uint8_t val)
     {
         if (abs >= buffer_.size())
-            buffer_.resize(abs + 1);
+            buffer_.resize((abs + 1 != 0) ? abs + 1 : abs); // never wrap to 0: resize throws length_error
         buffer_[abs] = val;
     }
     size_t read_at(void *buffer, size_t s, Pointer p)
@@ -890,7 +890,7 @@ class MemoryStream
     size_t write_at(const void *buffer, size_t s, Pointer p)
     {
         size_t s1 = buffer_.size();
-        size_t s2 = p + s;
+        size_t s2 = (p + s < p) ? (size_t)-1 : p + s; // never wrap: resize throws length_error
         if (s2 > s1)
             buffer_.resize(s2);
         memcpy(ptr(p), buffer, s);
-- 
2.43.0


From 5c9dd44e57bc2459c3688d8945a4d66820920d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:13 +0000
Subject: [PATCH 17/18] fix: SVD cancellation must scale rv1 and stop at a
 negligible element

For a matrix with a zero singular value inside the bidiagonal form (a zero
column, for instance) svdcmp kept the old superdiagonal elements after the
cancellation rotations, so U*W*V^T was not the matrix any more.
---
 include/colorsystem.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index c9b6e54..afd8fb4 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7609,7 +7609,8 @@ namespace SOLVER
                     s = 1.0;
                     for (int i = l; i <= k; i++)
                     {
-                        f = s * rv1[i];
+                        f      = s * rv1[i];
+                        rv1[i] = c * rv1[i];
                         if (fabs(f) + anorm != anorm)
                         {
                             g    = w[i];
@@ -7626,6 +7627,8 @@ namespace SOLVER
                                 a[j][i]  = (z * c - y * s);
                             }
                         }
+                        else
+                            break;
                     }
                 }
                 z = w[k];
-- 
2.43.0


From 402a328cf691596cc7549c6fd2818580530d636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:12 +0000
Subject: [PATCH 18/18] fix: Corrector::makeGamut must invert the solved matrix

solve() returns the matrix that takes a measured patch to its reference XYZ,
Gamut's constructor expects the matrix from XYZ: the two were swapped.
---
 include/colorsystem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index afd8fb4..ddfbd2f 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7847,7 +7847,8 @@ class Corrector
     static Gamut makeGamut(const char *name, std::vector<Tristimulus> &patch, const Spectrum &light = CIE_D65,
         const Observer &observer = CIE1931)
     {
-        return Gamut(name, solve(patch, light, observer));
+        // solve() maps a patch to its XYZ, Gamut takes the matrix from XYZ.
+        return Gamut(name, solve(patch, light, observer).invert());
     }
 };
 
-- 
2.43.0

