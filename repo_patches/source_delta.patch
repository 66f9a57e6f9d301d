From 6797432eaadbceb136c1c3d2e21549aedceb9db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 01/50] fix: subtract_with_carry discard(z) did nothing at a
 buffer boundary when z < long_lag

---
 include/boost/random/subtract_with_carry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index 6497884..4173194 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -69,7 +69,7 @@ struct subtract_with_carry_discard
 
         k = ((z % long_lag) + k) % long_lag;
 
-        if(k < z) {
+        if(k <= z) {
             // main loop: update full blocks from k = 0 to long_lag
             for(std::size_t i = 0; i < (z - k) / long_lag; ++i) {
                 for(std::size_t j = 0; j < short_lag; ++j) {
-- 
2.43.0


From 16734d77b7a00599b6fa26612a62f77e5dbec107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 02/50] fix: splitmix64 operator>> consumed the whole stream
 and left it failed

---
 include/boost/random/splitmix64.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/boost/random/splitmix64.hpp b/include/boost/random/splitmix64.hpp
index dd89ab5..4611bcc 100644
--- a/include/boost/random/splitmix64.hpp
+++ b/include/boost/random/splitmix64.hpp
@@ -154,17 +154,11 @@ public:
     inline friend std::basic_istream<CharT,Traits>& operator>>(std::basic_istream<CharT,Traits>& ist,
                                                                splitmix64& e)
     {
-        std::string sstate;
-        CharT val;
-        while (ist >> val)
+        std::uint64_t state;
+        if (ist >> state)
         {
-            if (std::isdigit(val))
-            {
-                sstate.push_back(val);
-            }
+            e.state_ = state;
         }
-        
-        e.state_ = std::strtoull(sstate.c_str(), nullptr, 10);
 
         return ist;
     }
-- 
2.43.0


From 41ab72f71ddea011e69adbe27ae44e165b48ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 03/50] fix: subtract_with_carry engines with different carries
 compared equal

---
 include/boost/random/subtract_with_carry.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index 4173194..a043702 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -249,7 +249,7 @@ public:
         for(unsigned int j = 0; j < r; ++j)
             if(x_.compute(j) != y.compute(j))
                 return false;
-        return true;
+        return x_.carry == y.carry;
     }
 
     /**
@@ -483,7 +483,7 @@ public:
         for(unsigned int j = 0; j < r; ++j)
             if(x_.compute(j) != y.compute(j))
                 return false;
-        return true;
+        return x_.carry == y.carry;
     }
 
     /** Returns true if the two generators will produce different sequences. */
-- 
2.43.0


From c0d09245993703ab0697d1112e20c8a9a5eb9767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 04/50] fix: mixmax operator>> rejected states saved after a
 multiple of N-1 draws

---
 include/boost/random/mixmax.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/mixmax.hpp b/include/boost/random/mixmax.hpp
index 3f09fc3..aebdfa1 100644
--- a/include/boost/random/mixmax.hpp
+++ b/include/boost/random/mixmax.hpp
@@ -145,7 +145,7 @@ public: // SEEDING FUNCTIONS
         in >> std::ws >> vec[j] ;
         sum=me.MOD_MERSENNE(sum+vec[j]);
     }
-    if (sum == savedsum && counter>0 && counter<Ndim){
+    if (sum == savedsum && counter>0 && counter<=Ndim){
         me.S.V=vec; me.S.counter = counter; me.S.sumtot=savedsum;
     }else{
         in.setstate(std::ios::failbit);
-- 
2.43.0


From 84afb78ca252d04a3462ffc8ff37c08c74cac470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 05/50] fix: quasi-random operator>> kept stale state when only
 the dimension changed

---
 include/boost/random/detail/qrng_base.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 5eeacfb..24aa0d9 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -159,6 +159,8 @@ public:
       {
         s.lattice.resize(dim);
         s.quasi_state.resize(dim);
+        // The old state was computed for another dimension
+        s.derived().seed();
       }
       // Fast-forward to the correct state
       s.derived().seed(seed);
-- 
2.43.0


From cec0ef1aa9f98b40597bfdc094aedffd7edc6afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:49 +0000
Subject: [PATCH 06/50] fix: linear_congruential discard was wrong or asserted
 for some valid multipliers

---
 include/boost/random/linear_congruential.hpp | 43 ++++++--------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/include/boost/random/linear_congruential.hpp b/include/boost/random/linear_congruential.hpp
index 62b05ec..d010ab0 100644
--- a/include/boost/random/linear_congruential.hpp
+++ b/include/boost/random/linear_congruential.hpp
@@ -193,38 +193,21 @@ public:
     void discard(boost::uintmax_t z)
     {
         typedef const_mod<IntType, m> mod_type;
-        IntType b_inv = mod_type::invert(a-1);
-        IntType b_gcd = mod_type::mult(a-1, b_inv);
-        if(b_gcd == 1) {
-            IntType a_z = mod_type::pow(a, z);
-            _x = mod_type::mult_add(a_z, _x, 
-                mod_type::mult(mod_type::mult(c, b_inv), a_z - 1));
-        } else {
-            // compute (a^z - 1)*c % (b_gcd * m) / (b / b_gcd) * inv(b / b_gcd)
-            // we're storing the intermediate result / b_gcd
-            IntType a_zm1_over_gcd = 0;
-            IntType a_km1_over_gcd = (a - 1) / b_gcd;
-            boost::uintmax_t exponent = z;
-            while(exponent != 0) {
-                if(exponent % 2 == 1) {
-                    a_zm1_over_gcd =
-                        mod_type::mult_add(
-                            b_gcd,
-                            mod_type::mult(a_zm1_over_gcd, a_km1_over_gcd),
-                            mod_type::add(a_zm1_over_gcd, a_km1_over_gcd));
-                }
-                a_km1_over_gcd = mod_type::mult_add(
-                    b_gcd,
-                    mod_type::mult(a_km1_over_gcd, a_km1_over_gcd),
-                    mod_type::add(a_km1_over_gcd, a_km1_over_gcd));
-                exponent /= 2;
+        // One step is the affine map x -> a*x + c.  Compose it with
+        // itself z times by repeated squaring.
+        IntType a_z = 1;
+        IntType c_z = 0;
+        IntType a_k = a;
+        IntType c_k = c;
+        for(boost::uintmax_t exponent = z; exponent != 0; exponent /= 2) {
+            if(exponent % 2 == 1) {
+                c_z = mod_type::mult_add(a_k, c_z, c_k);
+                a_z = mod_type::mult(a_k, a_z);
             }
-            
-            IntType a_z = mod_type::mult_add(b_gcd, a_zm1_over_gcd, 1);
-            IntType num = mod_type::mult(c, a_zm1_over_gcd);
-            b_inv = mod_type::invert((a-1)/b_gcd);
-            _x = mod_type::mult_add(a_z, _x, mod_type::mult(b_inv, num));
+            c_k = mod_type::mult_add(a_k, c_k, c_k);
+            a_k = mod_type::mult(a_k, a_k);
         }
+        _x = mod_type::mult_add(a_z, _x, c_z);
     }
 
     friend bool operator==(const linear_congruential_engine& x,
-- 
2.43.0


From b471f73697943397246f996e4492cf88cf36dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 07/50] fix: uniform_int ignored min when the range is a power
 of the engine range

---
 include/boost/random/uniform_int_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/uniform_int_distribution.hpp b/include/boost/random/uniform_int_distribution.hpp
index 8a3ea7b..6acff25 100644
--- a/include/boost/random/uniform_int_distribution.hpp
+++ b/include/boost/random/uniform_int_distribution.hpp
@@ -120,7 +120,7 @@ T generate_uniform_int(
           if(mult * range_type(brange) == range - mult + 1) {
               // The destination range is an integer power of
               // the generator's range.
-              return(result);
+              return random::detail::add<range_type, result_type>()(result, min_value);
           }
 
           // Postcondition: mult <= range
-- 
2.43.0


From 73461ae30c30477e4b67819301f039813ed9c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 08/50] fix: discrete_distribution inverted the overflow test
 on the sum of integer weights

---
 include/boost/random/discrete_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index c6c25fe..fdf539e 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -113,7 +113,7 @@ struct integer_alias_table {
                 iter = weights.begin(), end = weights.end();
             iter != end; ++iter)
         {
-            if((std::numeric_limits<WeightType>::max)() - result > *iter) {
+            if((std::numeric_limits<WeightType>::max)() - result < *iter) {
                 return static_cast<WeightType>(0);
             }
             result += *iter;
-- 
2.43.0


From 3d0f2d331d513dde56dd8beb962816550cffe4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 09/50] fix: hyperexponential param_type from a rate iterator
 range did not normalize its probabilities

---
 include/boost/random/hyperexponential_distribution.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/hyperexponential_distribution.hpp b/include/boost/random/hyperexponential_distribution.hpp
index 3a71c9e..624333e 100644
--- a/include/boost/random/hyperexponential_distribution.hpp
+++ b/include/boost/random/hyperexponential_distribution.hpp
@@ -336,7 +336,9 @@ class hyperexponential_distribution
         : probs_(std::distance(rate_first, rate_last), 1), // will be normalized below
           rates_(rate_first, rate_last)
         {
-            BOOST_ASSERT(probs_.size() == rates_.size());
+            hyperexp_detail::normalize(probs_);
+
+            BOOST_ASSERT( hyperexp_detail::check_params(probs_, rates_) );
         }
 
         /**
-- 
2.43.0


From bfa363911abb8949693d9c56495394bac79ee77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 10/50] fix: seed_seq::generate divided by zero on an empty
 range

---
 include/boost/random/seed_seq.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/random/seed_seq.hpp b/include/boost/random/seed_seq.hpp
index b0b1de2..60500e0 100644
--- a/include/boost/random/seed_seq.hpp
+++ b/include/boost/random/seed_seq.hpp
@@ -65,6 +65,7 @@ public:
     void generate(Iter first, Iter last) const
     {
         typedef typename std::iterator_traits<Iter>::value_type value_type;
+        if(first == last) return;
         std::fill(first, last, static_cast<value_type>(0x8b8b8b8bu));
         std::size_t s = v.size();
         std::size_t n = last - first;
-- 
2.43.0


From 7e6812929c79cad4defaa7ea16d792b6ef202ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 11/50] fix: seed_seq::generate left more than 32 bits in
 64-bit outputs

---
 include/boost/random/seed_seq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/seed_seq.hpp b/include/boost/random/seed_seq.hpp
index 60500e0..134f92f 100644
--- a/include/boost/random/seed_seq.hpp
+++ b/include/boost/random/seed_seq.hpp
@@ -87,7 +87,7 @@ public:
             value_type r2 = static_cast<value_type>(r1 +
                 ((k == 0) ? s :
                  (k <= s) ? k % n + v[k - 1] :
-                 (k % n)));
+                 (k % n))) & mask;
             *(first + (k+p)%n) = (*(first + (k+p)%n) + r1) & mask;
             *(first + (k+q)%n) = (*(first + (k+q)%n) + r2) & mask;
             *(first + k%n) = r2;
@@ -98,7 +98,7 @@ public:
                 & mask);
             r3 = r3 ^ (r3 >> 27);
             r3 = (r3 * 1566083941u) & mask;
-            value_type r4 = static_cast<value_type>(r3 - k%n);
+            value_type r4 = static_cast<value_type>(r3 - k%n) & mask;
             *(first + (k+p)%n) ^= r3;
             *(first + (k+q)%n) ^= r4;
             *(first + k%n) = r4;
-- 
2.43.0


From b1aa3c41c83c2a8af47498154590da28befb9e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 12/50] fix: shuffle_order picked wrong table entries for
 engines with a full 64-bit range

---
 include/boost/random/detail/large_arithmetic.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/detail/large_arithmetic.hpp b/include/boost/random/detail/large_arithmetic.hpp
index 66f6b4e..22fcdac 100644
--- a/include/boost/random/detail/large_arithmetic.hpp
+++ b/include/boost/random/detail/large_arithmetic.hpp
@@ -36,7 +36,9 @@ inline div_t muldivmod(boost::uintmax_t a, boost::uintmax_t b, boost::uintmax_t
     const ::boost::uintmax_t mask = (::boost::uintmax_t(1) << bits) - 1;
     typedef ::boost::uint_t<bits>::fast digit_t;
 
-    int shift = std::numeric_limits< ::boost::uintmax_t>::digits - 1
+    // m == 0 stands for 2^digits, which needs no normalization
+    int shift = (m == 0) ? 0 :
+        std::numeric_limits< ::boost::uintmax_t>::digits - 1
         - detail::integer_log2(m);
 
     a <<= shift;
-- 
2.43.0


From a6863fb3f905556485a6a08ccc232a0f0fe2ec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 13/50] fix: mixmax could return a value above max()

---
 include/boost/random/mixmax.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/mixmax.hpp b/include/boost/random/mixmax.hpp
index aebdfa1..ba40b35 100644
--- a/include/boost/random/mixmax.hpp
+++ b/include/boost/random/mixmax.hpp
@@ -301,7 +301,8 @@ template <int Ndim, unsigned int SPECIALMUL, boost::int64_t SPECIAL> inline boos
 }
 
 template <int Ndim, unsigned int SPECIALMUL, boost::int64_t SPECIAL> boost::uint64_t mixmax_engine  <Ndim, SPECIALMUL, SPECIAL> ::modadd(boost::uint64_t foo, boost::uint64_t bar){
-    return MOD_MERSENNE(foo+bar);
+    // foo+bar can be 2^62-1, which one reduction turns into 2^61 > max()
+    return MOD_MERSENNE(MOD_MERSENNE(foo+bar));
 }
 
 /* @copydoc boost::random::detail::mixmax_engine_doc */
-- 
2.43.0


From 6e1fe45cbd69f7c3a552439a6185d46f67c61261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 14/50] fix: muldivmod mis-estimated a quotient digit for
 moduli close to 2^64

---
 include/boost/random/detail/large_arithmetic.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/detail/large_arithmetic.hpp b/include/boost/random/detail/large_arithmetic.hpp
index 22fcdac..e275b65 100644
--- a/include/boost/random/detail/large_arithmetic.hpp
+++ b/include/boost/random/detail/large_arithmetic.hpp
@@ -80,13 +80,15 @@ inline div_t muldivmod(boost::uintmax_t a, boost::uintmax_t b, boost::uintmax_t
 
         digit_t q = digit_t((product[i] == m_[1]) ? mask : temp / m_[1]);
 
-        ::boost::uintmax_t rem =
-            ((temp - ::boost::uintmax_t(q) * m_[1]) << bits) + product[i - 2];
+        ::boost::uintmax_t high = temp - ::boost::uintmax_t(q) * m_[1];
+
+        ::boost::uintmax_t rem = (high << bits) + product[i - 2];
 
         ::boost::uintmax_t diff = m_[0] * ::boost::uintmax_t(q);
 
         int error = 0;
-        if(diff > rem) {
+        // if high has more than one digit, then the estimate is exact
+        if(high <= mask && diff > rem) {
             if(diff - rem > m) {
                 error = 2;
             } else {
-- 
2.43.0


From 7f338b610ad9027e84ef2e30dfebdd8ab4559b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 15/50] fix: linear_feedback_shift returned values above max()
 when w is less than the word

---
 include/boost/random/linear_feedback_shift.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/linear_feedback_shift.hpp b/include/boost/random/linear_feedback_shift.hpp
index a5c2ce7..19d5779 100644
--- a/include/boost/random/linear_feedback_shift.hpp
+++ b/include/boost/random/linear_feedback_shift.hpp
@@ -91,8 +91,8 @@ public:
         UIntType, s0)
     {
         value = s0 & wordmask();
-        if(value < (1 << (w-k))) {
-            value += 1 << (w-k);
+        if(value < (UIntType(1) << (w-k))) {
+            value += UIntType(1) << (w-k);
         }
     }
     
@@ -118,7 +118,7 @@ public:
     {
         const UIntType b = (((value << q) ^ value) & wordmask()) >> (k-s);
         const UIntType mask = (wordmask() << (w-k)) & wordmask();
-        value = ((value & mask) << s) ^ b;
+        value = (((value & mask) << s) & wordmask()) ^ b;
         return value;
     }
   
-- 
2.43.0


From 2ee62f73523a781f1e2d00877259d568751508ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 16/50] fix: mersenne_twister with r == 0 took the twist bit
 from the wrong word

---
 include/boost/random/mersenne_twister.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index 5fefb28..ceb7f16 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -546,30 +546,30 @@ mersenne_twister_engine<UIntType,w,n,m,r,a,u,d,s,b,t,c,l,f>::twist()
     {  // extra scope for MSVC brokenness w.r.t. for scope
         for(std::size_t j = 0; j < n-m-unroll_extra1; j++) {
             UIntType y = (x[j] & upper_mask) | (x[j+1] & lower_mask);
-            x[j] = x[j+m] ^ (y >> 1) ^ ((x[j+1]&1) * a);
+            x[j] = x[j+m] ^ (y >> 1) ^ ((y&1) * a);
         }
     }
     {
         for(std::size_t j = n-m-unroll_extra1; j < n-m; j++) {
             UIntType y = (x[j] & upper_mask) | (x[j+1] & lower_mask);
-            x[j] = x[j+m] ^ (y >> 1) ^ ((x[j+1]&1) * a);
+            x[j] = x[j+m] ^ (y >> 1) ^ ((y&1) * a);
         }
     }
     {
         for(std::size_t j = n-m; j < n-1-unroll_extra2; j++) {
             UIntType y = (x[j] & upper_mask) | (x[j+1] & lower_mask);
-            x[j] = x[j-(n-m)] ^ (y >> 1) ^ ((x[j+1]&1) * a);
+            x[j] = x[j-(n-m)] ^ (y >> 1) ^ ((y&1) * a);
         }
     }
     {
         for(std::size_t j = n-1-unroll_extra2; j < n-1; j++) {
             UIntType y = (x[j] & upper_mask) | (x[j+1] & lower_mask);
-            x[j] = x[j-(n-m)] ^ (y >> 1) ^ ((x[j+1]&1) * a);
+            x[j] = x[j-(n-m)] ^ (y >> 1) ^ ((y&1) * a);
         }
     }
     // last iteration
     UIntType y = (x[n-1] & upper_mask) | (x[0] & lower_mask);
-    x[n-1] = x[m-1] ^ (y >> 1) ^ ((x[0]&1) * a);
+    x[n-1] = x[m-1] ^ (y >> 1) ^ ((y&1) * a);
     i = 0;
 }
 /// \endcond
-- 
2.43.0


From 96a598a8061f2336b9969db78246bd7526e9fca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 17/50] fix: mersenne_twister seeding could leave the all-zero
 state when m == 1

---
 include/boost/random/mersenne_twister.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index ceb7f16..b52ca65 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -356,7 +356,9 @@ private:
         x[0] = (x[0] & upper_mask) | (y0 & lower_mask);
 
         // fix up the state if it's all zeroes.
-        for(std::size_t j = 0; j < n; ++j) {
+        // (The low order r bits of x[0] do not matter.)
+        if((x[0] & upper_mask) != 0) return;
+        for(std::size_t j = 1; j < n; ++j) {
             if(x[j] != 0) return;
         }
         x[0] = static_cast<UIntType>(1) << (w-1);
-- 
2.43.0


From 55fbb1d2438bd596fcba92a5d907a909b2f83985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 18/50] fix: reading a mersenne_twister or lagged_fibonacci
 that ends the text failed the stream

---
 include/boost/random/lagged_fibonacci.hpp | 4 ++--
 include/boost/random/mersenne_twister.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/lagged_fibonacci.hpp b/include/boost/random/lagged_fibonacci.hpp
index 0c93bae..446a2ef 100644
--- a/include/boost/random/lagged_fibonacci.hpp
+++ b/include/boost/random/lagged_fibonacci.hpp
@@ -154,9 +154,9 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, lagged_fibonacci_engine, f)
     {
-        is >> f.i >> std::ws;
+        is >> f.i;
         for(unsigned int j = 0; j < f.long_lag; ++j)
-            is >> f.x[j] >> std::ws;
+            is >> std::ws >> f.x[j];
         return is;
     }
 
diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index b52ca65..e2a113b 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -232,7 +232,7 @@ public:
                mersenne_twister_engine& mt)
     {
         for(std::size_t j = 0; j < mt.state_size; ++j)
-            is >> mt.x[j] >> std::ws;
+            is >> std::ws >> mt.x[j];
         // MSVC (up to 7.1) and Borland (up to 5.64) don't handle the template
         // value parameter "n" available from the class template scope, so use
         // the static constant with the same value
-- 
2.43.0


From 95570e37eb6e4e3212f79c5b05bbfeb876d8d6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:05 +0000
Subject: [PATCH 19/50] fix: reading a truncated mixmax text aborted instead of
 failing the stream

---
 include/boost/random/mixmax.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/mixmax.hpp b/include/boost/random/mixmax.hpp
index ba40b35..fd2102b 100644
--- a/include/boost/random/mixmax.hpp
+++ b/include/boost/random/mixmax.hpp
@@ -135,10 +135,13 @@ public: // SEEDING FUNCTIONS
     friend std::basic_istream<CharT,Traits>&
     operator>> (std::basic_istream<CharT,Traits> &in, mixmax_engine& me){
         // will set std::ios::failbit if the input format is not right
-        boost::array<boost::uint64_t, Ndim> vec;
+        boost::array<boost::uint64_t, Ndim> vec = {{0}};
         boost::uint64_t sum=0, savedsum=0, counter=0;
         in >> counter >> std::ws;
-        BOOST_ASSERT(counter==Ndim);
+        if (counter != Ndim) {
+            in.setstate(std::ios::failbit);
+            return in;
+        }
         in >> counter >> std::ws;
         in >> savedsum >> std::ws;
         for(int j=0;j<Ndim;j++) {
-- 
2.43.0


From 10645a0e10d045cbf1c07c8630f08a3dc9b4f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:05 +0000
Subject: [PATCH 20/50] fix: mersenne_twister with m == 1 saved and compared
 states wrongly

---
 include/boost/random/mersenne_twister.hpp | 27 ++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index e2a113b..4c30617 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -321,8 +321,12 @@ private:
             y0 = y0 << 1;
         }
         for(std::size_t sz = 0; sz < z; ++sz) {
+            if(m == 1) {
+                *(last - sz) = y0 & upper_mask;
+                complete(*(last - sz), rewind_find(last, sz, n-1));
+            }
             UIntType y1 =
-                rewind_find(last, sz, m-1) ^ rewind_find(last, sz, n-1);
+                rewind_find(last, sz+1, m) ^ rewind_find(last, sz, n-1);
             if(y1 & (static_cast<UIntType>(1) << (w-1))) {
                 y1 = ((y1 ^ a) << 1) | 1;
             } else {
@@ -347,6 +351,7 @@ private:
     {
         const UIntType upper_mask = (~static_cast<UIntType>(0)) << r;
         const UIntType lower_mask = ~upper_mask;
+        if(m == 1) complete(x[0], x[n-1]);
         UIntType y0 = x[m-1] ^ x[n-1];
         if(y0 & (static_cast<UIntType>(1) << (w-1))) {
             y0 = ((y0 ^ a) << 1) | 1;
@@ -362,6 +367,26 @@ private:
             if(x[j] != 0) return;
         }
         x[0] = static_cast<UIntType>(1) << (w-1);
+        if(m == 1) complete(x[0], x[n-1]);
+    }
+
+    /**
+     * With m == 1 recovering the low order r bits of an element
+     * needs these bits themselves: every pass settles one of them.
+     */
+    static void complete(UIntType& elem, UIntType other)
+    {
+        const UIntType upper_mask = (~static_cast<UIntType>(0)) << r;
+        const UIntType lower_mask = ~upper_mask;
+        for(std::size_t k = 0; k < r; ++k) {
+            UIntType y = elem ^ other;
+            if(y & (static_cast<UIntType>(1) << (w-1))) {
+                y = ((y ^ a) << 1) | 1;
+            } else {
+                y = y << 1;
+            }
+            elem = (elem & upper_mask) | (y & lower_mask);
+        }
     }
 
     /**
-- 
2.43.0


From b1b5ed5ec7a4508b8ed50b11b69fcd7591f68b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:19 +0000
Subject: [PATCH 21/50] fix: adaptors took a non-const base engine for a seed
 sequence instead of copying it

---
 include/boost/random/discard_block.hpp    | 2 ++
 include/boost/random/independent_bits.hpp | 2 ++
 include/boost/random/shuffle_order.hpp    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/boost/random/discard_block.hpp b/include/boost/random/discard_block.hpp
index b9b09ab..ea0d4a6 100644
--- a/include/boost/random/discard_block.hpp
+++ b/include/boost/random/discard_block.hpp
@@ -61,6 +61,8 @@ public:
     discard_block_engine() : _rng(), _n(0) { }
     /** Constructs a new \discard_block_engine with a copy of rng. */
     explicit discard_block_engine(const base_type & rng) : _rng(rng), _n(0) { }
+    // not to be taken for a seed sequence
+    explicit discard_block_engine(base_type & rng) : _rng(rng), _n(0) { }
 
 #ifndef BOOST_NO_CXX11_RVALUE_REFERENCES
     /** Constructs a new \discard_block_engine with rng. */
diff --git a/include/boost/random/independent_bits.hpp b/include/boost/random/independent_bits.hpp
index 72a8ed7..4d4bd19 100644
--- a/include/boost/random/independent_bits.hpp
+++ b/include/boost/random/independent_bits.hpp
@@ -84,6 +84,8 @@ public:
 
     /** Constructs an @c independent_bits_engine by copying @c base. */
     independent_bits_engine(const base_type& base_arg) : _base(base_arg) {}
+    // not to be taken for a seed sequence
+    independent_bits_engine(base_type& base_arg) : _base(base_arg) {}
 
     /**
      * Contructs an @c independent_bits_engine with
diff --git a/include/boost/random/shuffle_order.hpp b/include/boost/random/shuffle_order.hpp
index 0dc6b26..73877d0 100644
--- a/include/boost/random/shuffle_order.hpp
+++ b/include/boost/random/shuffle_order.hpp
@@ -97,6 +97,8 @@ public:
      * Complexity: Exactly k+1 invocations of the base generator.
      */
     explicit shuffle_order_engine(const base_type & rng) : _rng(rng) { init(); }
+    // not to be taken for a seed sequence
+    explicit shuffle_order_engine(base_type & rng) : _rng(rng) { init(); }
 
 #ifndef BOOST_NO_CXX11_RVALUE_REFERENCES
     explicit shuffle_order_engine(base_type&& rng) : _rng(rng) { init(); }
-- 
2.43.0


From 35aa42d35d9c530ee5de54b2ba735a8e6df3d7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 22/50] fix: mersenne_twister jumps with w < digits or m == 1
 computed a wrong state

---
 include/boost/random/mersenne_twister.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index 4c30617..ae53f49 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -493,17 +493,30 @@ private:
     {
         const UIntType upper_mask = (~static_cast<UIntType>(0)) << r;
         const UIntType lower_mask = ~upper_mask;
+        const UIntType word_mask = (~static_cast<UIntType>(0)) >>
+            (std::numeric_limits<UIntType>::digits - w);
         const std::size_t num_bits = w*n - r;
         for(std::size_t j = num_bits - n + 1; j <= num_bits; ++j)
             x[j % n] = p[j];
 
         UIntType y0 = 0;
         for(std::size_t j = num_bits + 1; j >= n - 1; --j) {
-            UIntType y1 = x[j % n] ^ x[(j + m) % n];
-            if(p[j - n + 1])
-                y1 = (y1 ^ a) << UIntType(1) | UIntType(1);
-            else
-                y1 = y1 << UIntType(1);
+            UIntType y1 = 0;
+            // With m == 1, y1 depends on the low order r bits of
+            // the element that we're computing.  Every pass settles
+            // one of them.
+            for(std::size_t k = (m == 1)? r : 0; ; --k) {
+                if(m == 1)
+                    x[(j + 1) % n] = (y0 & upper_mask) | (y1 & lower_mask);
+                y1 = x[j % n] ^ x[(j + m) % n];
+                if(p[j - n + 1])
+                    y1 = (y1 ^ a) << UIntType(1) | UIntType(1);
+                else
+                    y1 = y1 << UIntType(1);
+                if(k == 0) break;
+            }
+            // bits which aren't known yet must not end up above w.
+            y1 &= word_mask;
             x[(j + 1) % n] = (y0 & upper_mask) | (y1 & lower_mask);
             y0 = y1;
         }
-- 
2.43.0


From 45a07969e2c83a50cbd761b75d0e37ed4793a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:44 +0000
Subject: [PATCH 23/50] fix: mersenne_twister jumps were wrong for some
 parameters (r == 0, odd trace)

---
 include/boost/random/mersenne_twister.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index ae53f49..9b6cbf6 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -453,15 +453,17 @@ private:
     static detail::polynomial get_characteristic_polynomial()
     {
         const std::size_t num_bits = w*n - r;
+        // The last bit that can be chosen freely.  When r != 0, the
+        // low order bit of x[0] is determined by the others.
+        const std::size_t last = (r == 0)? num_bits - 1 : num_bits;
         detail::polynomial helper;
-        helper[num_bits - 1] = 1;
+        helper[last] = 1;
         mersenne_twister_engine tmp;
         tmp.reconstruct_state(helper);
-        // Skip the first num_bits elements, since we
-        // already know what they are.
-        for(std::size_t j = 0; j < num_bits; ++j) {
+        // Skip the elements that we already know.
+        for(std::size_t j = 0; j <= last; ++j) {
             if(tmp.i >= n) tmp.twist();
-            if(j == num_bits - 1)
+            if(j == last)
                 assert((tmp.x[tmp.i] & 1) == 1);
             else
                 assert((tmp.x[tmp.i] & 1) == 0);
@@ -499,7 +501,7 @@ private:
         for(std::size_t j = num_bits - n + 1; j <= num_bits; ++j)
             x[j % n] = p[j];
 
-        UIntType y0 = 0;
+        UIntType y0 = x[(num_bits + 2) % n];
         for(std::size_t j = num_bits + 1; j >= n - 1; --j) {
             UIntType y1 = 0;
             // With m == 1, y1 depends on the low order r bits of
@@ -509,7 +511,7 @@ private:
                 if(m == 1)
                     x[(j + 1) % n] = (y0 & upper_mask) | (y1 & lower_mask);
                 y1 = x[j % n] ^ x[(j + m) % n];
-                if(p[j - n + 1])
+                if(p[(r == 0)? j - n : j - n + 1])
                     y1 = (y1 ^ a) << UIntType(1) | UIntType(1);
                 else
                     y1 = y1 << UIntType(1);
-- 
2.43.0


From 6e09b455461a2f54ed66ed1f3c7d6c18aa7ae41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 24/50] fix: uniform_01 and bernoulli overflowed on engines of
 a signed type spanning more than half its range

---
 include/boost/random/bernoulli_distribution.hpp    |  6 +++++-
 .../boost/random/detail/signed_unsigned_tools.hpp  | 14 ++++++++++++++
 include/boost/random/uniform_01.hpp                |  9 +++++----
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/boost/random/bernoulli_distribution.hpp b/include/boost/random/bernoulli_distribution.hpp
index d66bae4..98517d0 100644
--- a/include/boost/random/bernoulli_distribution.hpp
+++ b/include/boost/random/bernoulli_distribution.hpp
@@ -21,6 +21,7 @@
 #include <boost/assert.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/operators.hpp>
+#include <boost/random/detail/signed_unsigned_tools.hpp>
 
 namespace boost {
 namespace random {
@@ -140,7 +141,10 @@ public:
         if(_p == RealType(0))
             return false;
         else
-            return RealType(eng() - (eng.min)()) <= _p * RealType((eng.max)()-(eng.min)());
+        {
+            typedef detail::difference<typename Engine::result_type> difference;
+            return RealType(difference()(eng(), (eng.min)())) <= _p * RealType(difference()((eng.max)(), (eng.min)()));
+        }
     }
 
     /**
diff --git a/include/boost/random/detail/signed_unsigned_tools.hpp b/include/boost/random/detail/signed_unsigned_tools.hpp
index 1979908..421bca4 100644
--- a/include/boost/random/detail/signed_unsigned_tools.hpp
+++ b/include/boost/random/detail/signed_unsigned_tools.hpp
@@ -81,6 +81,20 @@ struct add<T1, T2, /* signed */ true>
   }
 };
 
+/*
+ * Compute x - y for x >= y, without overflow, for any arithmetic type.
+ */
+
+template<class T, bool is_int = std::numeric_limits<T>::is_integer>
+struct difference : subtract<T> { };
+
+template<class T>
+struct difference<T, /* integer */ false>
+{
+  typedef T result_type;
+  result_type operator()(T x, T y) { return x - y; }
+};
+
 } // namespace detail
 } // namespace random
 } // namespace boost
diff --git a/include/boost/random/uniform_01.hpp b/include/boost/random/uniform_01.hpp
index 37258f5..958ac4c 100644
--- a/include/boost/random/uniform_01.hpp
+++ b/include/boost/random/uniform_01.hpp
@@ -22,6 +22,7 @@
 #include <boost/static_assert.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/ptr_helper.hpp>
+#include <boost/random/detail/signed_unsigned_tools.hpp>
 
 #include <boost/random/detail/disable_warnings.hpp>
 
@@ -93,9 +94,9 @@ public:
     for (;;) {
       typedef typename Engine::result_type base_result;
       result_type factor = result_type(1) /
-              (result_type(base_result((eng.max)()-(eng.min)())) +
+              (result_type(difference<base_result>()((eng.max)(), (eng.min)())) +
                result_type(std::numeric_limits<base_result>::is_integer ? 1 : 0));
-      result_type result = result_type(base_result(eng() - (eng.min)())) * factor;
+      result_type result = result_type(difference<base_result>()(eng(), (eng.min)())) * factor;
       if (result < result_type(1))
         return result;
     }
@@ -135,7 +136,7 @@ public:
   explicit backward_compatible_uniform_01(typename traits::rvalue_type rng)
     : _rng(rng),
       _factor(result_type(1) /
-              (result_type((base().max)()-(base().min)()) +
+              (result_type(difference<base_result>()((base().max)(), (base().min)())) +
                result_type(std::numeric_limits<base_result>::is_integer ? 1 : 0)))
   {
   }
@@ -149,7 +150,7 @@ public:
 
   result_type operator()() {
     for (;;) {
-      result_type result = result_type(base()() - (base().min)()) * _factor;
+      result_type result = result_type(difference<base_result>()(base()(), (base().min)())) * _factor;
       if (result < result_type(1))
         return result;
     }
-- 
2.43.0


From e44960ecfd70241bec21965b22140477154d2707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 25/50] fix: generate_canonical over a real-valued engine did
 not scale the first value

---
 include/boost/random/generate_canonical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index 5f45b4e..d849f53 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -60,7 +60,7 @@ RealType generate_canonical_impl(URNG& g, boost::false_type /*is_integral*/)
     RealType R = pow(RealType(2), RealType(engine_bits));
     RealType mult = R;
     RealType limit = pow(RealType(2), RealType(b));
-    RealType S = RealType(g() - (g.min)());
+    RealType S(floor((RealType(g()) - RealType((g.min)())) * R));
     while(mult < limit) {
         RealType inc(floor((RealType(g()) - RealType((g.min)())) * R));
         S += inc * mult;
-- 
2.43.0


From 2202bb9bef421cca0185aeba0954bb1fc0bbd7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 26/50] fix: discrete_distribution::param_type from an empty
 range was not the default

---
 include/boost/random/discrete_distribution.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index fdf539e..e6d8aba 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -335,6 +335,9 @@ public:
         {}
         void normalize()
         {
+            if(_probabilities.empty()) {
+                _probabilities.push_back(static_cast<WeightType>(1));
+            }
             impl_type::normalize(_probabilities);
         }
         std::vector<WeightType> _probabilities;
-- 
2.43.0


From 872dc51ae1d9ec72f047397dba491f7fa66c6293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 27/50] fix: discrete_distribution could return a trailing
 index of weight zero after round-off

---
 include/boost/random/discrete_distribution.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index e6d8aba..410b458 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -468,7 +468,10 @@ public:
             // This shouldn't be reachable, but round-off error
             // can prevent any match from being found when val is
             // very close to 1.
-            return static_cast<IntType>(parm._probabilities.size() - 1);
+            do {
+                --result;
+            } while(result != 0 && parm._probabilities[result] == WeightType(0));
+            return static_cast<IntType>(result);
         } else {
             // WeightType is integral and sum(parm._probabilities)
             // would overflow.  Just use the easy solution.
-- 
2.43.0


From 05a9ffad0579a24482a7c4d88696aa70c3921985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 28/50] fix: generate_canonical could compute a value above 1
 (rounded engine range, rounded products)

---
 include/boost/random/generate_canonical.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index d849f53..d237288 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -33,7 +33,7 @@ RealType generate_canonical_impl(URNG& g, boost::true_type /*is_integral*/)
     using std::pow;
     typedef typename URNG::result_type base_result;
     std::size_t digits = std::numeric_limits<RealType>::digits;
-    RealType R = RealType((g.max)()) - RealType((g.min)()) + 1;
+    RealType R = RealType(detail::subtract<base_result>()((g.max)(), (g.min)())) + 1;
     RealType mult = R;
     RealType limit =
         pow(RealType(2),
@@ -81,10 +81,10 @@ RealType generate_canonical(URNG& g)
     RealType result = detail::generate_canonical_impl<RealType, bits>(
         g, boost::random::traits::is_integral<typename URNG::result_type>());
     BOOST_ASSERT(result >= 0);
-    BOOST_ASSERT(result <= 1);
-    if(result == 1) {
-        result -= std::numeric_limits<RealType>::epsilon() / 2;
-        BOOST_ASSERT(result != 1);
+    // rounding may have taken the result to 1 or just above it
+    if(result >= 1) {
+        result = 1 - std::numeric_limits<RealType>::epsilon() / 2;
+        BOOST_ASSERT(result < 1);
     }
     return result;
 }
-- 
2.43.0


From d154e0cbb0c3f9f37fcf4111414e65e3fb1b3113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 29/50] fix: discrete_distribution kept aliases of earlier
 weights after param() (unequal objects, out-of-range access)

---
 include/boost/random/discrete_distribution.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index 410b458..1283ae2 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -74,6 +74,8 @@ struct integer_alias_table {
                 }
             }
         }
+        // drop the aliases of any previous weights
+        _alias_table.clear();
         _alias_table.resize(static_cast<std::size_t>(n));
         _average = weight_average;
         _excess = excess;
@@ -144,6 +146,8 @@ struct real_alias_table {
         std::size_t size = std::distance(first, last);
         WeightType weight_sum =
             std::accumulate(first, last, static_cast<WeightType>(0));
+        // drop the aliases of any previous weights
+        _alias_table.clear();
         _alias_table.resize(size);
         return weight_sum / size;
     }
-- 
2.43.0


From b931f401137eeac54f57ae07d510e8dc83ad9927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 30/50] fix: discrete_distribution::param_type read from an
 empty list had no values

---
 include/boost/random/discrete_distribution.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index 1283ae2..20ff75e 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -319,6 +319,9 @@ public:
             std::vector<WeightType> temp;
             detail::read_vector(is, temp);
             if(is) {
+                if(temp.empty()) {
+                    temp.push_back(static_cast<WeightType>(1));
+                }
                 parm._probabilities.swap(temp);
             }
             return is;
-- 
2.43.0


From a99cf26e78d58dc1a94c6797211a367324c6363e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 31/50] fix: generate_int_float_pair shifted by -1 when the
 last digit is used in full (e.g. float with 8- or 16-bit engines)

---
 include/boost/random/detail/int_float_pair.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/detail/int_float_pair.hpp b/include/boost/random/detail/int_float_pair.hpp
index 7ec2e26..21135b1 100644
--- a/include/boost/random/detail/int_float_pair.hpp
+++ b/include/boost/random/detail/int_float_pair.hpp
@@ -88,7 +88,8 @@ std::pair<RealType, int> generate_int_float_pair(Engine& eng, boost::true_type)
     }
     if (m - w%m < digits)
     {
-        const std::size_t remaining = (digits - m + w%m) % m;
+        // between 1 and m bits
+        const std::size_t remaining = (digits - m + w%m - 1) % m + 1;
         base_unsigned u = generate_one_digit(eng, m);
         r += u & ((base_unsigned(2) << (remaining - 1)) - 1);
         const RealType mult = RealType(0.5)/RealType(base_unsigned(1) << (remaining - 1));
-- 
2.43.0


From ac1a705cae6334c452a0a9fd657d788926b766c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 32/50] fix: negative_binomial_distribution asserted when its
 gamma variate was zero (p == 1, underflow)

---
 include/boost/random/negative_binomial_distribution.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/negative_binomial_distribution.hpp b/include/boost/random/negative_binomial_distribution.hpp
index cbe26fa..35cb2ba 100644
--- a/include/boost/random/negative_binomial_distribution.hpp
+++ b/include/boost/random/negative_binomial_distribution.hpp
@@ -117,7 +117,10 @@ public:
     IntType operator()(URNG& urng) const
     {
         gamma_distribution<RealType> gamma(_k, (1-_p)/_p);
-        poisson_distribution<IntType, RealType> poisson(gamma(urng));
+        RealType mean = gamma(urng);
+        // with p == 1, or by underflow
+        if(!(mean > 0)) return 0;
+        poisson_distribution<IntType, RealType> poisson(mean);
         return poisson(urng);
     }
     
-- 
2.43.0


From 682edba3ca401ba7a87be0ec3967d1be1843759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 33/50] fix: reading an invalid probability into the old
 geometric_distribution asserted

---
 include/boost/random/geometric_distribution.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/geometric_distribution.hpp b/include/boost/random/geometric_distribution.hpp
index 90374cf..5a4d291 100644
--- a/include/boost/random/geometric_distribution.hpp
+++ b/include/boost/random/geometric_distribution.hpp
@@ -249,8 +249,12 @@ public:
     {
         RealType val;
         if(is >> val) {
-            typename impl_type::param_type impl_param(1 - val);
-            gd._impl.param(impl_param);
+            if(val > RealType(0) && val < RealType(1)) {
+                typename impl_type::param_type impl_param(1 - val);
+                gd._impl.param(impl_param);
+            } else {
+                is.setstate(std::ios_base::failbit);
+            }
         }
         return is;
     }
-- 
2.43.0


From 45cdaaf219abaac87cf5dba7485be786acded25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:56 +0000
Subject: [PATCH 34/50] fix: a failed read changed the target distribution
 (operator>> read straight into the members)

---
 include/boost/random/bernoulli_distribution.hpp   |  5 ++++-
 include/boost/random/cauchy_distribution.hpp      |  5 ++++-
 include/boost/random/exponential_distribution.hpp |  5 ++++-
 include/boost/random/lognormal_distribution.hpp   | 10 ++++++++--
 include/boost/random/normal_distribution.hpp      |  5 ++++-
 include/boost/random/uniform_on_sphere.hpp        |  6 ++++--
 include/boost/random/uniform_smallint.hpp         |  5 ++++-
 7 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/include/boost/random/bernoulli_distribution.hpp b/include/boost/random/bernoulli_distribution.hpp
index 98517d0..d5d9a0e 100644
--- a/include/boost/random/bernoulli_distribution.hpp
+++ b/include/boost/random/bernoulli_distribution.hpp
@@ -171,7 +171,10 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, bernoulli_distribution, bd)
     {
-        is >> bd._p;
+        param_type parm;
+        if(is >> parm) {
+            bd.param(parm);
+        }
         return is;
     }
 
diff --git a/include/boost/random/cauchy_distribution.hpp b/include/boost/random/cauchy_distribution.hpp
index 998e523..d9dfe32 100644
--- a/include/boost/random/cauchy_distribution.hpp
+++ b/include/boost/random/cauchy_distribution.hpp
@@ -183,7 +183,10 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, cauchy_distribution, cd)
     {
-        is >> cd._median >> std::ws >> cd._sigma;
+        param_type parm;
+        if(is >> parm) {
+            cd.param(parm);
+        }
         return is;
     }
 
diff --git a/include/boost/random/exponential_distribution.hpp b/include/boost/random/exponential_distribution.hpp
index b4b95c5..9af97b6 100644
--- a/include/boost/random/exponential_distribution.hpp
+++ b/include/boost/random/exponential_distribution.hpp
@@ -356,7 +356,10 @@ public:
     /** Reads the distribution from a std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, exponential_distribution, ed)
     {
-        is >> ed._lambda;
+        param_type parm;
+        if(is >> parm) {
+            ed.param(parm);
+        }
         return is;
     }
 
diff --git a/include/boost/random/lognormal_distribution.hpp b/include/boost/random/lognormal_distribution.hpp
index 7ed1e13..56cd5d2 100644
--- a/include/boost/random/lognormal_distribution.hpp
+++ b/include/boost/random/lognormal_distribution.hpp
@@ -226,8 +226,14 @@ public:
     }
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, lognormal_distribution, ld)
     {
-        is >> ld._normal >> std::ws >> ld._mean >> std::ws >> ld._sigma;
-        ld.init();
+        normal_distribution<result_type> normal_in;
+        RealType mean_in, sigma_in;
+        if(is >> normal_in >> std::ws >> mean_in >> std::ws >> sigma_in) {
+            ld._normal = normal_in;
+            ld._mean = mean_in;
+            ld._sigma = sigma_in;
+            ld.init();
+        }
         return is;
     }
 private:
diff --git a/include/boost/random/normal_distribution.hpp b/include/boost/random/normal_distribution.hpp
index b7ff3eb..a7b8b0e 100644
--- a/include/boost/random/normal_distribution.hpp
+++ b/include/boost/random/normal_distribution.hpp
@@ -341,7 +341,10 @@ public:
     /** Reads a @c normal_distribution from a @c std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, normal_distribution, nd)
     {
-        is >> std::ws >> nd._mean >> std::ws >> nd._sigma;
+        param_type parm;
+        if(is >> parm) {
+            nd.param(parm);
+        }
         return is;
     }
 
diff --git a/include/boost/random/uniform_on_sphere.hpp b/include/boost/random/uniform_on_sphere.hpp
index ce2e352..8e383aa 100644
--- a/include/boost/random/uniform_on_sphere.hpp
+++ b/include/boost/random/uniform_on_sphere.hpp
@@ -256,8 +256,10 @@ public:
     /** Reads the distribution from a @c std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, uniform_on_sphere, sd)
     {
-        is >> sd._dim;
-        sd._container.resize(sd._dim);
+        param_type parm;
+        if(is >> parm) {
+            sd.param(parm);
+        }
         return is;
     }
 
diff --git a/include/boost/random/uniform_smallint.hpp b/include/boost/random/uniform_smallint.hpp
index d8f0cd3..405eb04 100644
--- a/include/boost/random/uniform_smallint.hpp
+++ b/include/boost/random/uniform_smallint.hpp
@@ -215,7 +215,10 @@ public:
     /** Reads the distribution from a @c std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, uniform_smallint, ud)
     {
-        is >> ud._min >> std::ws >> ud._max;
+        param_type parm;
+        if(is >> parm) {
+            ud.param(parm);
+        }
         return is;
     }
 
-- 
2.43.0


From de6ae3c5206e6e5cc19fdff0d4b28fe569582abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:56 +0000
Subject: [PATCH 35/50] fix: piecewise distributions accepted texts whose
 interval and weight counts do not match

---
 include/boost/random/piecewise_constant_distribution.hpp | 8 ++++++--
 include/boost/random/piecewise_linear_distribution.hpp   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/piecewise_constant_distribution.hpp b/include/boost/random/piecewise_constant_distribution.hpp
index 488f41c..eca3d98 100644
--- a/include/boost/random/piecewise_constant_distribution.hpp
+++ b/include/boost/random/piecewise_constant_distribution.hpp
@@ -194,8 +194,12 @@ public:
             detail::read_vector(is, new_intervals);
             detail::read_vector(is, new_weights);
             if(is) {
-                parm._intervals.swap(new_intervals);
-                parm._weights.swap(new_weights);
+                if(!new_weights.empty() && new_intervals.size() == new_weights.size() + 1) {
+                    parm._intervals.swap(new_intervals);
+                    parm._weights.swap(new_weights);
+                } else {
+                    is.setstate(std::ios_base::failbit);
+                }
             }
             return is;
         }
diff --git a/include/boost/random/piecewise_linear_distribution.hpp b/include/boost/random/piecewise_linear_distribution.hpp
index 541c57f..033d1a7 100644
--- a/include/boost/random/piecewise_linear_distribution.hpp
+++ b/include/boost/random/piecewise_linear_distribution.hpp
@@ -209,8 +209,12 @@ public:
             detail::read_vector(is, new_intervals);
             detail::read_vector(is, new_weights);
             if(is) {
-                parm._intervals.swap(new_intervals);
-                parm._weights.swap(new_weights);
+                if(new_intervals.size() >= 2 && new_intervals.size() == new_weights.size()) {
+                    parm._intervals.swap(new_intervals);
+                    parm._weights.swap(new_weights);
+                } else {
+                    is.setstate(std::ios_base::failbit);
+                }
             }
             return is;
         }
-- 
2.43.0


From 8343427ecde34d54f2a9049361bf460f18f09f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 36/50] fix: triangle and geometric parameters were read
 through double (long double did not round-trip)

---
 include/boost/random/geometric_distribution.hpp | 2 +-
 include/boost/random/triangle_distribution.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/geometric_distribution.hpp b/include/boost/random/geometric_distribution.hpp
index 5a4d291..a2ad557 100644
--- a/include/boost/random/geometric_distribution.hpp
+++ b/include/boost/random/geometric_distribution.hpp
@@ -76,7 +76,7 @@ public:
         /** Reads the parameters from a std::istream. */
         BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, param_type, parm)
         {
-            double p_in;
+            RealType p_in;
             if(is >> p_in) {
                 if(p_in > RealType(0) && p_in < RealType(1)) {
                     parm._p = p_in;
diff --git a/include/boost/random/triangle_distribution.hpp b/include/boost/random/triangle_distribution.hpp
index 6d37e2b..956dd0d 100644
--- a/include/boost/random/triangle_distribution.hpp
+++ b/include/boost/random/triangle_distribution.hpp
@@ -74,7 +74,7 @@ public:
         /** Reads the parameters from a @c std::istream. */
         BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, param_type, parm)
         {
-            double a_in, b_in, c_in;
+            RealType a_in, b_in, c_in;
             if(is >> a_in >> std::ws >> b_in >> std::ws >> c_in) {
                 if(a_in <= b_in && b_in <= c_in) {
                     parm._a = a_in;
-- 
2.43.0


From 5c043a6a241d49b5784cdb09d26596dc49fce1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 37/50] fix: generate() of an empty range wrote past its end

---
 include/boost/random/detail/seed_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/detail/seed_impl.hpp b/include/boost/random/detail/seed_impl.hpp
index 5e79582..573793a 100644
--- a/include/boost/random/detail/seed_impl.hpp
+++ b/include/boost/random/detail/seed_impl.hpp
@@ -84,6 +84,7 @@ inline T pow2(int n)
 template<class Engine, class Iter>
 void generate_from_real(Engine& eng, Iter begin, Iter end)
 {
+    if(begin == end) return;
     using std::fmod;
     typedef typename Engine::result_type RealType;
     const int Bits = detail::generator_bits<Engine>::value();
@@ -131,6 +132,7 @@ void generate_from_real(Engine& eng, Iter begin, Iter end)
 template<class Engine, class Iter>
 void generate_from_int(Engine& eng, Iter begin, Iter end)
 {
+    if(begin == end) return;
     typedef typename Engine::result_type IntType;
     typedef typename boost::random::traits::make_unsigned<IntType>::type unsigned_type;
     int remaining_bits = 0;
-- 
2.43.0


From 06433d2dc83696e28d3f1edf8e44e8e3a2a5a9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 38/50] fix: niederreiter_base2 truncated the last power of its
 polynomial (wrong low bits when the degree does not divide the width)

---
 include/boost/random/niederreiter_base2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/niederreiter_base2.hpp b/include/boost/random/niederreiter_base2.hpp
index 5f05850..d519839 100644
--- a/include/boost/random/niederreiter_base2.hpp
+++ b/include/boost/random/niederreiter_base2.hpp
@@ -124,7 +124,7 @@ public:
       }
 
       const unsigned degree = qrng_detail::msb(poly); // integer log2(poly)
-      const unsigned space_required = degree * ((bit_count / degree) + 1); // ~ degree + bit_count
+      const unsigned space_required = degree * ((bit_count / degree) + 1) + 1; // ~ degree + bit_count
 
       v.resize(degree + bit_count - 1);
 
-- 
2.43.0


From 37c4c671f8405375237cc2e88fa44aed1300cbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 39/50] fix: sobol_engine wrote past its table when a
 polynomial has more coefficients than the engine has bits

---
 include/boost/random/sobol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/sobol.hpp b/include/boost/random/sobol.hpp
index 042b3ba..d474493 100644
--- a/include/boost/random/sobol.hpp
+++ b/include/boost/random/sobol.hpp
@@ -65,7 +65,7 @@ public:
       const unsigned degree = qrng_detail::msb(poly); // integer log2(poly)
 
       // set initial values of m from table
-      for (unsigned k = 0; k != degree; ++k)
+      for (unsigned k = 0; k != degree && k < bit_count; ++k)
         cj[dimension*k + dim] = SobolTables::minit(dim-1, k);
 
       // Calculate remaining elements for this dimension,
-- 
2.43.0


From b42ca216c483817fef1a7e20d73eca98900cdad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 40/50] fix: a quasi-random engine read from an unrepresentable
 text threw after changing the target

---
 include/boost/random/detail/qrng_base.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 24aa0d9..63b1c52 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -155,16 +155,21 @@ public:
       // Check seed sign before resizing the lattice and/or recomputing state
       check_seed_sign(seed);
 
-      if (s.dimension() != prevent_zero_dimension(dim))
+      // Work on a copy, so that a text which turns out to be invalid (and throws)
+      // leaves s as it was
+      DerivedT tmp(s.derived());
+      qrng_base& t = tmp;
+      if (t.dimension() != prevent_zero_dimension(dim))
       {
-        s.lattice.resize(dim);
-        s.quasi_state.resize(dim);
+        t.lattice.resize(dim);
+        t.quasi_state.resize(dim);
         // The old state was computed for another dimension
-        s.derived().seed();
+        tmp.seed();
       }
       // Fast-forward to the correct state
-      s.derived().seed(seed);
-      if (z != 0) s.discard(z);
+      tmp.seed(seed);
+      if (z != 0) t.discard(z);
+      s.derived() = tmp;
     }
     return is;
   }
-- 
2.43.0


From 086f5ab5135b2114b71818300d20c4de5ae7c659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:53 +0000
Subject: [PATCH 41/50] fix: discard() of nearly 2^64 values moved a
 one-dimensional quasi-random engine backwards

---
 include/boost/random/detail/qrng_base.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 63b1c52..87944de 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -111,12 +111,15 @@ public:
     boost::uintmax_t vec_n = z / dimension_value;
     std::size_t carry = curr_elem + (z % dimension_value);
 
-    vec_n += carry / dimension_value;
-    carry  = carry % dimension_value;
+    const std::size_t extra = carry / dimension_value;
+    carry = carry % dimension_value;
 
     // Avoid overdiscarding by branchlessly correcting the triple
     // (D, S + 1, 0) to (D, S, D) (see equality operator)
-    const bool corr = (!carry) & static_cast<bool>(vec_n);
+    // (vec_n + extra can overflow, but only if dimension_value == 1,
+    // and then the correction makes it fit again)
+    const bool corr = (!carry) & static_cast<bool>(vec_n | extra);
+    vec_n += extra;
 
     // Discards vec_n (with correction) consecutive s-dimensional vectors
     discard_vector(vec_n - static_cast<boost::uintmax_t>(corr));
-- 
2.43.0


From f2ce9fa0a54ec3b45f292d23ce13575d8795e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 42/50] fix: poisson_distribution could loop without end when
 its uniform value is close to 1

---
 include/boost/random/poisson_distribution.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/poisson_distribution.hpp b/include/boost/random/poisson_distribution.hpp
index 1281a7d..1f42566 100644
--- a/include/boost/random/poisson_distribution.hpp
+++ b/include/boost/random/poisson_distribution.hpp
@@ -326,7 +326,13 @@ private:
         while(u > p) {
             u = u - p;
             ++x;
-            p = _mean * p / x;
+            RealType p1 = _mean * p / x;
+            // Once p is below the round-off error of u, the
+            // subtraction may never bring u below it.
+            if(p1 < std::numeric_limits<RealType>::epsilon() && p1 < p) {
+                break;
+            }
+            p = p1;
         }
         return x;
     }
-- 
2.43.0


From 3fc6ef6b778b6c35d14c55908136e27afa84d9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 43/50] fix: gamma_distribution accepted absurd values when
 both the uniform value and the acceptance bound are zero

---
 include/boost/random/gamma_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/gamma_distribution.hpp b/include/boost/random/gamma_distribution.hpp
index c9bda4c..00330c6 100644
--- a/include/boost/random/gamma_distribution.hpp
+++ b/include/boost/random/gamma_distribution.hpp
@@ -177,7 +177,7 @@ public:
                     + _alpha-result_type(1);
                 if(x <= result_type(0))
                     continue;
-                if(uniform_01<RealType>()(eng) >
+                if(uniform_01<RealType>()(eng) >=
                     (result_type(1)+y*y) * exp((_alpha-result_type(1))
                                                *log(x/(_alpha-result_type(1)))
                                                - sqrt(result_type(2)*_alpha
-- 
2.43.0


From 385199cc552a4183a126aae3d370fe83eaa8122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 44/50] fix: negative_binomial_distribution asserted for p == 1
 and for k == 0

---
 include/boost/random/negative_binomial_distribution.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/negative_binomial_distribution.hpp b/include/boost/random/negative_binomial_distribution.hpp
index 35cb2ba..50a0bf4 100644
--- a/include/boost/random/negative_binomial_distribution.hpp
+++ b/include/boost/random/negative_binomial_distribution.hpp
@@ -116,9 +116,11 @@ public:
     template<class URNG>
     IntType operator()(URNG& urng) const
     {
+        // the parameters of the gamma distribution must be positive
+        if(_k == 0 || _p == 1) return 0;
         gamma_distribution<RealType> gamma(_k, (1-_p)/_p);
         RealType mean = gamma(urng);
-        // with p == 1, or by underflow
+        // by underflow
         if(!(mean > 0)) return 0;
         poisson_distribution<IntType, RealType> poisson(mean);
         return poisson(urng);
-- 
2.43.0


From c920ea091c0c51c53bafc4ed47b6f8f5ba91102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 45/50] fix: extreme_value_distribution returned an infinity
 for a uniform value of zero

---
 include/boost/random/extreme_value_distribution.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/extreme_value_distribution.hpp b/include/boost/random/extreme_value_distribution.hpp
index 419c3da..7d6fbbb 100644
--- a/include/boost/random/extreme_value_distribution.hpp
+++ b/include/boost/random/extreme_value_distribution.hpp
@@ -96,7 +96,11 @@ public:
     RealType operator()(URNG& urng) const
     {
         using std::log;
-        return _a - log(-log(uniform_01<RealType>()(urng))) * _b;
+        RealType u;
+        do {
+            u = uniform_01<RealType>()(urng);
+        } while(!(u > 0)); // log(0) would be infinite
+        return _a - log(-log(u)) * _b;
     }
 
     /**
-- 
2.43.0


From f0f393baac3359d3f1f70ae70dbc2253923354dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 46/50] fix: beta_distribution returned NaN when both gamma
 variates are zero

---
 include/boost/random/beta_distribution.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/beta_distribution.hpp b/include/boost/random/beta_distribution.hpp
index 145bf97..7ea3895 100644
--- a/include/boost/random/beta_distribution.hpp
+++ b/include/boost/random/beta_distribution.hpp
@@ -101,9 +101,12 @@ public:
     template<class URNG>
     RealType operator()(URNG& urng) const
     {
-        RealType a = gamma_distribution<RealType>(_alpha, RealType(1.0))(urng);
-        RealType b = gamma_distribution<RealType>(_beta, RealType(1.0))(urng);
-        return a / (a + b);
+        for(;;) {
+            RealType a = gamma_distribution<RealType>(_alpha, RealType(1.0))(urng);
+            RealType b = gamma_distribution<RealType>(_beta, RealType(1.0))(urng);
+            // both can be zero
+            if(a + b > 0) return a / (a + b);
+        }
     }
 
     /**
-- 
2.43.0


From 539ffeacc46300116ee7ae7fb4c82c7f85364a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 47/50] fix: fisher_f_distribution returned NaN or infinity
 when its denominator is zero

---
 include/boost/random/fisher_f_distribution.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/fisher_f_distribution.hpp b/include/boost/random/fisher_f_distribution.hpp
index cdf14da..5795fc8 100644
--- a/include/boost/random/fisher_f_distribution.hpp
+++ b/include/boost/random/fisher_f_distribution.hpp
@@ -100,7 +100,11 @@ public:
     template<class URNG>
     RealType operator()(URNG& urng)
     {
-        return (_impl_m(urng) * n()) / (_impl_n(urng) * m());
+        for(;;) {
+            RealType result = (_impl_m(urng) * n()) / (_impl_n(urng) * m());
+            // the denominator can be zero
+            if(result <= (std::numeric_limits<RealType>::max)()) return result;
+        }
     }
 
     /**
-- 
2.43.0


From 7b4deb0658400fc590a6d489e2c91174035a68de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 48/50] fix: student_t_distribution returned NaN or infinity
 when its chi-squared variate is zero

---
 include/boost/random/student_t_distribution.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/student_t_distribution.hpp b/include/boost/random/student_t_distribution.hpp
index e28b0e3..e203065 100644
--- a/include/boost/random/student_t_distribution.hpp
+++ b/include/boost/random/student_t_distribution.hpp
@@ -96,7 +96,12 @@ public:
     RealType operator()(URNG& urng)
     {
         using std::sqrt;
-        return _normal(urng) / sqrt(_chi_squared(urng) / n());
+        for(;;) {
+            RealType result = _normal(urng) / sqrt(_chi_squared(urng) / n());
+            // the denominator can be zero
+            if(result >= -(std::numeric_limits<RealType>::max)() &&
+               result <= (std::numeric_limits<RealType>::max)()) return result;
+        }
     }
 
     /**
-- 
2.43.0


From e238f2bb5790948368c2313972da122b7e34a6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 49/50] fix: triangle_distribution could return values outside
 [a, c] (or NaN) by round-off

---
 include/boost/random/triangle_distribution.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/triangle_distribution.hpp b/include/boost/random/triangle_distribution.hpp
index 956dd0d..5393fd5 100644
--- a/include/boost/random/triangle_distribution.hpp
+++ b/include/boost/random/triangle_distribution.hpp
@@ -162,10 +162,15 @@ public:
     {
         using std::sqrt;
         result_type u = uniform_01<result_type>()(eng);
-        if( u <= q1 )
-            return _a + p1*sqrt(u);
-        else
-        return _c - d3*sqrt(d2*u-d1);
+        // Round-off can take either branch past the ends of its interval.
+        if( u <= q1 ) {
+            result_type result = _a + p1*sqrt(u);
+            return result > _b ? _b : result;
+        } else {
+            result_type v = d2*u-d1;
+            result_type result = v > 0 ? _c - d3*sqrt(v) : _c;
+            return result < _b ? _b : result;
+        }
     }
 
     /**
-- 
2.43.0


From e37c189d670d18ccc61c5954f750035f5542aebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:52 +0000
Subject: [PATCH 50/50] fix: independent_bits_engine with a base generator of
 three values shifted by a negative count

---
 include/boost/random/independent_bits.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/independent_bits.hpp b/include/boost/random/independent_bits.hpp
index 4d4bd19..562b481 100644
--- a/include/boost/random/independent_bits.hpp
+++ b/include/boost/random/independent_bits.hpp
@@ -260,10 +260,11 @@ private:
         base_unsigned& y0, base_unsigned& y1,
         base_unsigned& y0_mask, base_unsigned& y1_mask)
     {
-        BOOST_ASSERT(w >= n);
+        // w0 is 0 if n > w, which happens if the base generator
+        // has only three values
         w0 = w/n;
         n0 = n - w % n;
-        y0_mask = (base_unsigned(2) << (w0 - 1)) - 1;
+        y0_mask = (w0 == 0)? 0 : (base_unsigned(2) << (w0 - 1)) - 1;
         y1_mask = (y0_mask << 1) | 1;
         y0 = (range + 1) & ~y0_mask;
         y1 = (range + 1) & ~y1_mask;
-- 
2.43.0

