From a142b9c92345c66e38c96d524ccad9900d067dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 1/3] fix: apply the last steps of the left-closed directed
 correct rounding search

When the displacement was exactly deltai, the number of steps was adjusted
and then thrown away, and the parity of the approximate left endpoint was
taken after r had been subtracted from deltai. For toward_zero (and the
infinity modes that act like it) the output was shortest but not closest.
---
 grisu_exact.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index b573382..c14bb7e 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -2091,8 +2091,8 @@ namespace jkj {
 					grisu_exact_rounding_modes::left_closed_directed_tag)
 				{
 					// We already know r is at most deltai
-					deltai -= std::uint32_t(r);
 					auto const approx_x = zi - deltai;
+					deltai -= std::uint32_t(r);
 
 					auto const current_digit = ret_value.significand % 10;
 
@@ -2133,6 +2133,7 @@ namespace jkj {
 							case zf_vs_deltaf_t::zf_smaller:
 								break;
 							}
+							ret_value.significand -= steps;
 							goto return_label;
 						}
 						else {
-- 
2.43.0


From ca73b800d4fe70385162c91c55901624db5ca08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 2/3] fix: integer check of the right endpoint when it
 overflows to zero

In left-closed directed modes the right endpoint of the all-ones significand
is 2^q, held as fr == 0. The divisibility tests do not apply to 0: the
assertion x != 0 fired, or the endpoint was taken to be divisible by 5^k and
the output was not the shortest.
---
 grisu_exact.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index c14bb7e..93e7041 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -2011,7 +2011,25 @@ namespace jkj {
 						integer_check_case_id::fc_pm_2_to_the_q_mp_m2_generic :
 						integer_check_case_id::other;
 
-					if (is_product_integer<case_id>(fr, exponent, minus_k)) {
+					bool is_z_integer;
+					if constexpr (IntervalTypeProvider::tag ==
+						grisu_exact_rounding_modes::left_closed_directed_tag)
+					{
+						// fr == 0 means that 2^extended_precision has overflowed;
+						// it is not divisible by any positive power of 5
+						if (fr == 0) {
+							is_z_integer = exponent <= max_exponent_for_k_geq_0 &&
+								minus_k - exponent <= int(extended_precision);
+						}
+						else {
+							is_z_integer = is_product_integer<case_id>(fr, exponent, minus_k);
+						}
+					}
+					else {
+						is_z_integer = is_product_integer<case_id>(fr, exponent, minus_k);
+					}
+
+					if (is_z_integer) {
 						// Decrease kappa until 10^kappa becomes smaller than delta
 						// If left boundary is included, 10^kappa can also be equal to delta
 						while (true) {
-- 
2.43.0


From 4fbb25d0a5880cb5c025ca150ec68196d817fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 3/3] fix: signed overflow in floor_log2_pow10

It is documented and asserted to be accurate for e in [-642,642], but
the product overflows 32 bits for |e| > 616.
---
 grisu_exact.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index 93e7041..c865a3e 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -319,7 +319,7 @@ namespace jkj {
 
 			return int(
 				// Calculate 0x3.5269e * exp * 2^20
-				(std::int32_t(e) * log2_5_over_4_up_to_20)
+				(std::int64_t(e) * log2_5_over_4_up_to_20)
 				// Perform arithmetic-shift
 				>> 20);
 		}
-- 
2.43.0

