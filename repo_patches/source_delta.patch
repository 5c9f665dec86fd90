From 08890be455de9d9b9d3468426424ad60a760f2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:23 +0000
Subject: [PATCH 1/3] fix: keep the sticky bit of the product in generic fma

When z is much larger than x * y, the low bits of the product are shifted
out and have to be remembered in a sticky bit. The sticky bit was taken
from the already shifted value instead of the original one, so a sum just
above or below a tie could be rounded to even.
---
 libm/src/math/generic/fma.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libm/src/math/generic/fma.rs b/libm/src/math/generic/fma.rs
index aaf459d..d50d3b2 100644
--- a/libm/src/math/generic/fma.rs
+++ b/libm/src/math/generic/fma.rs
@@ -71,9 +71,9 @@ where
                 // Exactly `sbits`, nothing to do
             } else if d < sbits {
                 // Remaining shift fits within `sbits`. Leave `z` in place, shift `x * y`
-                rlo = (rhi << (sbits - d)) | (rlo >> d);
-                // Set the sticky bit
-                rlo |= IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                // and collect the bits that get lost into the sticky bit.
+                let sticky = IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                rlo = (rhi << (sbits - d)) | (rlo >> d) | sticky;
                 rhi = rhi >> d;
             } else {
                 // `z`'s magnitude is enough that `x * y` is irrelevant. It was nonzero, so set
-- 
2.43.0


From f7b1c37b6773c06bb0fcff45f51aefd6e862b5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:40:34 +0000
Subject: [PATCH 2/3] fix: require AVX state support before selecting FMA4

FMA4 instructions are VEX encoded and fault unless the operating system has
enabled AVX state, so the feature must be gated on the XGETBV result in the
same way as FMA.
---
 libm/src/math/arch/x86/detect.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libm/src/math/arch/x86/detect.rs b/libm/src/math/arch/x86/detect.rs
index 983818b..06be114 100644
--- a/libm/src/math/arch/x86/detect.rs
+++ b/libm/src/math/arch/x86/detect.rs
@@ -118,6 +118,7 @@ fn load_x86_features() -> Flags {
     enable(extended_features_eax_leaf_1, 31, cpu_flags::MOVRS);
 
     // `XSAVE` and `AVX` support:
+    let mut avx_enabled = false;
     let cpu_xsave = proc_info_ecx.test_nth(26);
     if cpu_xsave {
         // 0. Here the CPU supports `XSAVE`.
@@ -154,6 +155,8 @@ fn load_x86_features() -> Flags {
             // Only if the OS and the CPU support saving/restoring the AVX
             // registers we enable `xsave` support:
             if os_avx_support {
+                avx_enabled = true;
+
                 // See "13.3 ENABLING THE XSAVE FEATURE SET AND XSAVE-ENABLED
                 // FEATURES" in the "Intel® 64 and IA-32 Architectures Software
                 // Developer’s Manual, Volume 1: Basic Architecture":
@@ -190,7 +193,11 @@ fn load_x86_features() -> Flags {
     // http://lkml.kernel.org/r/5ce86123a7b9dad925ac583d88d2f921040e859b.1538583282.git.puwen@hygon.cn
     if vendor_id == *b"AuthenticAMD" || vendor_id == *b"HygonGenuine" {
         // These features are available on AMD arch CPUs:
-        enable(extended_proc_info_ecx, 16, cpu_flags::FMA4);
+
+        // FMA4 (VEX encoded, so the AVX registers must be enabled):
+        if avx_enabled {
+            enable(extended_proc_info_ecx, 16, cpu_flags::FMA4);
+        }
     }
 
     value
-- 
2.43.0


From b9c3b5957673602dd47f5d6165687f0e2b984ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:40:34 +0000
Subject: [PATCH 3/3] fix: use a defined multiply operand order in
 __aeabi_idivmod

MUL with equal destination and first source registers is unpredictable
before ARMv6, which the armv4t and armv5te targets run on.
---
 compiler-builtins/src/arm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler-builtins/src/arm.rs b/compiler-builtins/src/arm.rs
index 0c15b37..7708c92 100644
--- a/compiler-builtins/src/arm.rs
+++ b/compiler-builtins/src/arm.rs
@@ -53,7 +53,7 @@ intrinsics! {
             "push {{r0, r1, r4, lr}}",
             "bl {trampoline}",
             "pop {{r1, r2}}",
-            "muls r2, r2, r0",
+            "muls r2, r0, r2",
             "subs r1, r1, r2",
             "pop {{r4, pc}}",
             trampoline = sym crate::arm::__aeabi_idiv,
-- 
2.43.0

