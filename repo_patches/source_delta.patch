From b646132e74eaa11ed6f5634251c65a187aafc620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 1/9] fix: ref_inv and ref_inv_faithful never released their
 MPFR numerator

---
 include/thls/tops/fp_flopoco.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 8144f63..bb2666b 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -752,6 +752,7 @@ fp_flopoco<ER,FR> ref_inv(const fp_flopoco<EA,FA> &a)
     fp_flopoco<ER,FR> res(mr,true);
 
     mpfr_clear(ma);
+    mpfr_clear(mb);
     mpfr_clear(mr);
 
     return res;
@@ -775,6 +776,7 @@ fp_flopoco<ER,FR> ref_inv(const fp_flopoco<EA,FA> &a)
         r2=fp_flopoco<ER,FR>(mr,true);
 
         mpfr_clear(ma);
+        mpfr_clear(mb);
         mpfr_clear(mr);
 
     }
-- 
2.43.0


From dd7a8237e8a4fc44eeb431f8f374fb0cb6e24c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 2/9] fix: native policies leaked an MPFR value when refusing
 an inexact conversion

---
 include/thls/tops/policy_native.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/thls/tops/policy_native.hpp b/include/thls/tops/policy_native.hpp
index 2e105fd..ad2bc88 100644
--- a/include/thls/tops/policy_native.hpp
+++ b/include/thls/tops/policy_native.hpp
@@ -26,6 +26,7 @@ namespace thls {
                     mpfr_div(xxR, xxA, x, MPFR_RNDN);
                     mpfr_fprintf(stderr, "Converting %Rg, %g, errA=%Rg, errR=%Rg\n", x, v, xxA, xxR);
                     mpfr_clear(xxA);
+                    mpfr_clear(xxR);
                     throw std::runtime_error("Conversion is not exact.");
                 }
             }
@@ -123,6 +124,7 @@ namespace thls {
                     mpfr_div(xxR, xxA, x, MPFR_RNDN);
                     mpfr_fprintf(stderr, "Converting %Rg, %g, errA=%Rg, errR=%Rg\n", x, v, xxA, xxR);
                     mpfr_clear(xxA);
+                    mpfr_clear(xxR);
                     throw std::runtime_error("Conversion is not exact.");
                 }
             }
-- 
2.43.0


From c338a516c5c67c160eabacdcb1163419557878ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 3/9] fix: div_v2 read a namespace-scope constant that may not
 be initialised yet

---
 include/thls/tops/fp_flopoco_div_v2.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_div_v2.hpp b/include/thls/tops/fp_flopoco_div_v2.hpp
index be90acc..5792c53 100644
--- a/include/thls/tops/fp_flopoco_div_v2.hpp
+++ b/include/thls/tops/fp_flopoco_div_v2.hpp
@@ -161,17 +161,17 @@ THLS_INLINE fp_flopoco<wER,wFR> div_v2(const fp_flopoco<wEX,wFX> &xPre, const fp
                 case 0b00010: case 0b00011:
                     q[i]=cg<3>(0b001);
                     Bin = zpad_hi<3>(fY);
-                    Cin = og1;
+                    Cin = og<1>();
                     break;
                 case 0b00100: case 0b00101: case 0b00111:
                     q[i]=cg<3>(0b010);
                     Bin = concat(zg2,fY,zg1);
-                    Cin = og1;
+                    Cin = og<1>();
                     break;
                 case 0b00110: case 0b01000: case 0b01001: case 0b01010: case 0b01011: case 0b01101: case 0b01111:
                     q[i]=cg<3>(0b011);
                     Bin = zpad_hi<1>(fYTimes3);
-                    Cin = og1;
+                    Cin = og<1>();
                     break;
                 case 0b11000: case 0b10110: case 0b10111: case 0b10100: case 0b10101: case 0b10011: case 0b10001:
                     q[i]=cg<3>(0b101);
-- 
2.43.0


From 7fe549fe9c781f926e8855e9071ab1cb462f6cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 4/9] fix: random test source could yield a disabled class when
 the draw was zero

---
 include/thls/tops/fp_flopoco.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index bb2666b..131bd8b 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -1144,7 +1144,7 @@ public:
         double u=m_udist(rng) * class_cdf.back();
         unsigned sel;
         for(sel=0; sel<class_cdf.size(); sel++){
-            if( u <= class_cdf[sel] ){
+            if( class_pdf[sel] > 0 && u <= class_cdf[sel] ){
                 break;
             }
         }
-- 
2.43.0


From 9ec79672c509a413e4ca73caea00d205fddcbbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 5/9] fix: fw_uint(const char*) read text without digits as an
 arbitrary number

---
 include/thls/tops/fw_uint_on_masked_uint.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/thls/tops/fw_uint_on_masked_uint.hpp b/include/thls/tops/fw_uint_on_masked_uint.hpp
index a7bad98..a95ecee 100644
--- a/include/thls/tops/fw_uint_on_masked_uint.hpp
+++ b/include/thls/tops/fw_uint_on_masked_uint.hpp
@@ -439,9 +439,11 @@ struct fw_uint
                 throw std::runtime_error("Unexpected trailing characgers in binary string.");
             }
         }else{
-            std::stringstream tmp;
-            tmp<<std::string(value);
-            tmp>>bits;
+            std::istringstream tmp{std::string(value)};
+            tmp.imbue(std::locale::classic());
+            if(!(tmp>>bits)){
+                throw std::runtime_error("Not a decimal number.");
+            }
             assert( bits<= MASK());
             bits=bits&MASK();
         }
-- 
2.43.0


From 2584e2eb7fa9c9ef4e7933cbba89f5a5ef35074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 6/9] fix: str() depended on the global locale and lost text
 when memory ran out

---
 include/thls/tops/fp_flopoco.hpp | 2 ++
 include/thls/tops/fp_ieee.hpp    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 131bd8b..8e282ad 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -1029,6 +1029,8 @@ template<int ExpBits,int FracBits>
 std::string fp_flopoco<ExpBits,FracBits>::str() const
 {
     std::stringstream acc;
+    acc.imbue(std::locale::classic());
+    acc.exceptions(std::ios::badbit);
     acc<<bits.to_string();
     fw_uint<2> flags=get_bits<ExpBits+FracBits+2,ExpBits+FracBits+1>(bits);
     fw_uint<1> negative=get_bit<ExpBits+FracBits>(bits);
diff --git a/include/thls/tops/fp_ieee.hpp b/include/thls/tops/fp_ieee.hpp
index 59d7879..ab1aebf 100644
--- a/include/thls/tops/fp_ieee.hpp
+++ b/include/thls/tops/fp_ieee.hpp
@@ -482,6 +482,8 @@ template<int ExpBits,int FracBits>
 std::string fp_ieee<ExpBits,FracBits>::str() const
 {
     std::stringstream acc;
+    acc.imbue(std::locale::classic());
+    acc.exceptions(std::ios::badbit);
     acc<<bits.to_string();
     if( is_zero().to_bool() ){
         acc<<select(is_negative(), " -zero" , " +zero");
-- 
2.43.0


From 5fe9295246e715c5a6492c747719bb979ade3059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 7/9] fix: printing a bit heap freed a GMP block with free()
 and followed the caller's stream format

---
 include/thls/tops/bit_heap.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/thls/tops/bit_heap.hpp b/include/thls/tops/bit_heap.hpp
index 5b87dad..4431053 100644
--- a/include/thls/tops/bit_heap.hpp
+++ b/include/thls/tops/bit_heap.hpp
@@ -5,6 +5,9 @@
 
 #ifndef THLS_SYNTHESIS
 #include <iostream>
+#include <locale>
+#include <sstream>
+#include <vector>
 #include <mpfr.h>
 #endif
 
@@ -164,21 +167,24 @@ std::ostream &operator<<(std::ostream &dst, const bit_heap_link<H,T> &x)
 {
     typedef bit_heap_link<H,T> this_t;
 
-    dst<<"BH[W="<<this_t::width<<",MH="<<this_t::max_height<<",bits=0b";
+    // Format aside, so that the state of dst cannot change the text, and into
+    // our own buffer, so that GMP has nothing that needs to be freed.
+    std::vector<char> bits(this_t::width+2);
+    std::stringstream acc;
+    acc.imbue(std::locale::classic());
+    acc.exceptions(std::ios::badbit);
 
     mpz_t tmp;
     mpz_init(tmp);
     bit_heap_to_mpz(tmp, x);
-    char *ss=mpz_get_str (NULL, 2, tmp);
-    dst<<ss;
-    free(ss);
+    mpz_get_str(&bits[0], 2, tmp);
     mpz_clear(tmp);
 
-    dst<<",H=";
-    detail::write_heights(dst,x);
-    dst<<"]";
+    acc<<"BH[W="<<this_t::width<<",MH="<<this_t::max_height<<",bits=0b"<<&bits[0]<<",H=";
+    detail::write_heights(acc,x);
+    acc<<"]";
 
-    return dst;
+    return dst<<acc.str();
 }
 #endif
 
-- 
2.43.0


From 8c674db2f10df5e1635eba12084521d2ba96b7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 8/9] fix: the input generator leaked MPFR and GMP state when a
 conversion threw

---
 include/thls/tops/make_input.hpp | 26 ++++++++-----------
 include/thls/tops/mpfr_scope.hpp | 43 ++++++++++++++++++++++++++++++++
 2 files changed, 53 insertions(+), 16 deletions(-)
 create mode 100644 include/thls/tops/mpfr_scope.hpp

diff --git a/include/thls/tops/make_input.hpp b/include/thls/tops/make_input.hpp
index 02c41ca..fb7529a 100644
--- a/include/thls/tops/make_input.hpp
+++ b/include/thls/tops/make_input.hpp
@@ -5,6 +5,8 @@
 #include <mpfr.h>
 #include <random>
 
+#include "thls/tops/mpfr_scope.hpp"
+
 namespace thls
 {
 
@@ -14,8 +16,9 @@ void make_input(std::vector<TType> &args, int n)
 	typedef std::numeric_limits<TType> limits_t;
 	
 	
-	mpfr_t tmp;
-	mpfr_init2(tmp, limits_t::digits);
+	// The conversions below may throw
+	detail::scoped_mpfr tmpOwner(limits_t::digits);
+	mpfr_ptr tmp=tmpOwner.x;
 	
 	////////////////////////////////////////
 	// Small integers
@@ -93,22 +96,18 @@ void make_input(std::vector<TType> &args, int n)
         mpfr_mul_si(tmp, tmp, -1, MPFR_RNDN);
     }
 	
-	gmp_randstate_t state;
-	gmp_randinit_default(state);
+	detail::scoped_gmp_rand state;
 	
-	mpfr_t tmp2;
-	mpfr_init2(tmp2, TType::frac_bits+1);
-    
-    mpz_t rr;
-    mpz_init(rr);
+	detail::scoped_mpfr tmp2Owner(TType::frac_bits+1);
+	mpfr_ptr tmp2=tmp2Owner.x;
 	
 	while(args.size()<(unsigned)n){
         // Avoid mpfr_grandom, as VHLS uses an older version of mpfr.h
         
 		// Ratio of uniforms distribution, produces uniform over
         // [0,0.5), then long tailed distribution from 0.5 up.
-        mpfr_urandomb(tmp, state);
-        mpfr_urandomb(tmp2, state);
+        mpfr_urandomb(tmp, state.x);
+        mpfr_urandomb(tmp2, state.x);
         mpfr_div(tmp, tmp, tmp2, MPFR_RNDN);
         
 		args.push_back(TType(tmp, true));
@@ -116,11 +115,6 @@ void make_input(std::vector<TType> &args, int n)
         args.push_back(TType(tmp, true));
         mpfr_mul_si(tmp, tmp, -1, MPFR_RNDN);
 	}
-	
-    mpz_clear(rr);
-	mpfr_clear(tmp2);
-	gmp_randclear(state);
-	mpfr_clear(tmp);
 }
 
 };
diff --git a/include/thls/tops/mpfr_scope.hpp b/include/thls/tops/mpfr_scope.hpp
new file mode 100644
index 0000000..f7cb936
--- /dev/null
+++ b/include/thls/tops/mpfr_scope.hpp
@@ -0,0 +1,43 @@
+#ifndef thls_tops_mpfr_scope_hpp
+#define thls_tops_mpfr_scope_hpp
+
+#include <gmp.h>
+#include <mpfr.h>
+
+namespace thls
+{
+namespace detail
+{
+    // Owners of GMP and MPFR objects, for functions which call code that may throw
+
+    struct scoped_mpfr
+    {
+        mpfr_t x;
+
+        explicit scoped_mpfr(mpfr_prec_t prec)
+        { mpfr_init2(x, prec); }
+
+        ~scoped_mpfr()
+        { mpfr_clear(x); }
+
+        scoped_mpfr(const scoped_mpfr &) = delete;
+        scoped_mpfr &operator=(const scoped_mpfr &) = delete;
+    };
+
+    struct scoped_gmp_rand
+    {
+        gmp_randstate_t x;
+
+        scoped_gmp_rand()
+        { gmp_randinit_default(x); }
+
+        ~scoped_gmp_rand()
+        { gmp_randclear(x); }
+
+        scoped_gmp_rand(const scoped_gmp_rand &) = delete;
+        scoped_gmp_rand &operator=(const scoped_gmp_rand &) = delete;
+    };
+}; // detail
+}; // thls
+
+#endif
-- 
2.43.0


From 6bf0553ce0526226d4460fc095409881ddbba82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 9/9] fix: promoting IEEE to the FloPoCo format of the same
 size returned a reference to a dead temporary

---
 include/thls/tops/fp_promote.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_promote.hpp b/include/thls/tops/fp_promote.hpp
index 7cb7298..906bc57 100644
--- a/include/thls/tops/fp_promote.hpp
+++ b/include/thls/tops/fp_promote.hpp
@@ -126,7 +126,7 @@ namespace detail
         static const fp_ieee<E,F> &to_ieee(const fp_ieee<E,F> &src)
         { return src; }
         
-        static const fp_flopoco<E,F> &to_flopoco(const fp_ieee<E,F> &src)
+        static fp_flopoco<E,F> to_flopoco(const fp_ieee<E,F> &src)
         { 
             return fp_flopoco<E,F>(
                 concat(
-- 
2.43.0

