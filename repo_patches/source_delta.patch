From 54527b36a13c6e657078449b0cf2c67892cf3cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:58 +0000
Subject: [PATCH 01/42] fix: dbV_factor: a voltage ratio is 10^(dB/20), not
 half the power ratio

---
 include/dsp/filter-design.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index 162b017..f1256d5 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -56,7 +56,7 @@ auto dbV( T vout, U vin )
 template< typename T >
 auto dbV_factor( T dbv )
 {
-    return dbP_factor( dbv ) / T{2};
+    return dbP_factor( dbv / T{2} );
 }
 
 } // namespace dsp
-- 
2.43.0


From 5d6d22747a6a3ba26b05dd85c6510c6e61ba55f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:10 +0000
Subject: [PATCH 02/42] fix: onepole_design: use std::abs (not integer abs) and
 the pole exp(-2 pi f/fs)

---
 include/dsp/onepole-design.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dsp/onepole-design.hpp b/include/dsp/onepole-design.hpp
index b823e78..c1b597c 100644
--- a/include/dsp/onepole-design.hpp
+++ b/include/dsp/onepole-design.hpp
@@ -75,8 +75,8 @@ struct onepole_design_method<FilterResponse::low_pass, T >
 {
     static auto design( T f, T fs )
     {
-        const auto a1 = -exp( -T{1} * num::pi<T> * f / fs );
-        const auto b0 = T{1} - abs(a1);
+        const auto a1 = -exp( -T{2} * num::pi<T> * f / fs );
+        const auto b0 = T{1} - std::abs(a1);
         
         return OnePoleCoeffT<T>{ {b0}, {a1} };
     }
@@ -89,8 +89,8 @@ struct onepole_design_method<FilterResponse::high_pass, T >
 {
     static auto design( T f, T fs )
     {
-        const auto a1 = +exp( -T{1} * num::pi<T> * (T{0.5} - f / fs ) );
-        const auto b0 = T{1} - abs(a1);
+        const auto a1 = +exp( -T{2} * num::pi<T> * (T{0.5} - f / fs ) );
+        const auto b0 = T{1} - std::abs(a1);
 
         return OnePoleCoeffT<T>{ {b0}, {a1} };
     }
-- 
2.43.0


From 36005af131fda7c705ef376e5cd904218d4499dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:10 +0000
Subject: [PATCH 03/42] fix: onepole: report the actual pole and its stability

---
 include/dsp/onepole-io.hpp | 2 +-
 include/dsp/onepole.hpp    | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dsp/onepole-io.hpp b/include/dsp/onepole-io.hpp
index 96ee1fd..c0dafd9 100644
--- a/include/dsp/onepole-io.hpp
+++ b/include/dsp/onepole-io.hpp
@@ -48,7 +48,7 @@ template< typename T, typename S >
 std::ostream & operator<<( std::ostream & os, OnePoleT<T,S> const & bq )
 {
     return os <<
-        "\nOnePole is always stable" <<
+        "\nOnePole is " << ( bq.is_stable() ? "stable:":"NOT stable:" ) <<
         "\na: " << bq.coeff_a() <<
         "\nb: " << bq.coeff_b() <<
         "\nw: " << bq.state() <<
diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index f7bd41c..b78db4d 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -65,7 +65,7 @@ struct SolutionT
     complex_t s0;
 };
 
-// Solve a quadratic polynomial: ax + b -> k(x - z1)
+// Solve a linear polynomial: ax + b -> k(x - z1)
 
 template< typename V >
 auto solve( V a, V b )
@@ -75,7 +75,7 @@ auto solve( V a, V b )
     // normalize:
     b /= a;
 
-    return Solution{ 7 };
+    return Solution{ -b };
 }
 
 // normalized a:
@@ -205,11 +205,11 @@ public:
         return SolutionT<T>{};
     }
 
-    // stable if the magnitude of both poles is less or equal to leq unity:
+    // stable if the magnitude of the pole is less or equal to unity:
 
     auto is_stable() const
     {
-        return true;
+        return abs( poles().s0 ) <= value_type{1};
     }
 
     // Modifiers:
-- 
2.43.0


From 842ebd9c58d65012aadfdcd8d5986d4a87b47e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 04/42] fix: onepole: ZPK constructor did not compile

---
 include/dsp/onepole.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index b78db4d..efb4c9a 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -171,11 +171,12 @@ public:
 #endif
     {}
 
-    // Initialize biquad from ZPK:
+    // Initialize one-pole from ZPK, H(z) = k / (1 - p z^-1), its only zero is at the origin:
 
-    OnePoleT( Solution z, Solution p, value_type k )
+    OnePoleT( Solution /*z*/, Solution p, value_type k )
     {
-        tie( b.b0, b.b1, b.b2, a.a1, a.a2 ) = to_coeff( z, p, k );
+        b.b0 = k;
+        a.a1 = -p.s0.real();
     }
 
     // Observers:
-- 
2.43.0


From 9f240bff2841db9961a7d43a861d1d37e25e447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 05/42] fix: chebyshev1_lp_hp: place the poles from the
 passband ripple and normalize the passband gain

---
 include/dsp/chebyshev-design.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dsp/chebyshev-design.hpp b/include/dsp/chebyshev-design.hpp
index f24e5f3..cce9dd4 100644
--- a/include/dsp/chebyshev-design.hpp
+++ b/include/dsp/chebyshev-design.hpp
@@ -116,7 +116,7 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
     const auto r     = N % 2;
     const auto K     = ( N - r ) / 2;
 
-    const auto a     = std::asinh( estop ) / N;
+    const auto a     = std::asinh( 1 / epass ) / N;
     const auto W3    = real( Wpass * std::cosh( std::acosh( complex_t{1} / complex_t{epass} ) / complex_t(N) ) );
     const auto f3    = (fs / num::pi<T> ) * std::atan( std::pow( W3, s ) );
     const auto W0    = std::sinh( a ) * Wpass;
@@ -128,18 +128,21 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
 
     if ( r == 1 )
     {
-        const auto G = 1 / (1 + W0);
+        const auto G = W0 / (1 + W0);
 
         A.emplace_back( /*1,*/ s * ( 2 * G - 1 ), T{0} );
         B.emplace_back(   G,   s * G            , T{0} );
     }
 
+    // an even-order filter has its passband ripple minimum at DC (low pass) or Nyquist (high pass):
+    const auto H0 = r == 1 ? T{1} : 1 / std::sqrt( 1 + epass * epass );
+
     for ( auto i : core::range( 1, K+1 ) )        // [1..K+1)
     {
         const auto th = num::pi<T> * (N - 1 + 2 * i) / (2 * N);
         const auto Wi = Wpass * sin(th);
         const auto D  =  1 - 2 * W0 * cos( th ) + W0 * W0 + Wi * Wi;
-        const auto G  = (W0 * W0 + Wi * Wi ) / D;
+        const auto G  = (W0 * W0 + Wi * Wi ) / D * ( i == 1 ? H0 : T{1} );
         const auto a1 =  2 * (W0 * W0 + Wi * Wi - 1) / D;
         const auto a2 = (1 + 2 * W0 * cos(th) + W0 * W0 + Wi * Wi) / D;
 
-- 
2.43.0


From f3dda849f28ed9d517da5222a674d1adf3eaa108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:39 +0000
Subject: [PATCH 06/42] fix: matrix products: require conforming shapes
 (non-square products read and wrote out of bounds)

---
 include/num/matrix.hpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/num/matrix.hpp b/include/num/matrix.hpp
index 5d7912b..a7de7fe 100644
--- a/include/num/matrix.hpp
+++ b/include/num/matrix.hpp
@@ -349,6 +349,22 @@ constexpr matrix<T,N,M> operator*( matrix<T,1,1> const & v, matrix<T,N,M> const
     return A * v(0);
 }
 
+// colvec * A1x1
+
+template< typename T, int N >
+constexpr colvec<T,N> operator*( colvec<T,N> const & x, matrix<T,1,1> const & v )
+{
+    return x * v(0);
+}
+
+// A1x1 * rowvec
+
+template< typename T, int M >
+constexpr rowvec<T,M> operator*( matrix<T,1,1> const & v, rowvec<T,M> const & x )
+{
+    return x * v(0);
+}
+
 // A + A:
 
 template< typename T, int N, int M >
@@ -379,14 +395,14 @@ constexpr matrix<T,N,M> operator-( matrix<T,N,M> const & a, matrix<T,N,M> const
 
 // A * B:
 
-template< typename T, int N, int M >
-constexpr matrix<T,N,M> operator*( matrix<T,N,M> const & A, matrix<T,N,M> const & B )
+template< typename T, int N, int M, int L >
+constexpr matrix<T,N,L> operator*( matrix<T,N,M> const & A, matrix<T,M,L> const & B )
 {
-    matrix<T,N,M> result(0);
+    matrix<T,N,L> result(0);
 
     for ( int row = 0; row < A.rows(); ++row )
     {
-        for ( int col = 0; col < A.columns(); ++col )
+        for ( int col = 0; col < B.columns(); ++col )
         {
             for ( int k = 0; k < A.columns(); ++k )
             {
@@ -401,9 +417,9 @@ constexpr matrix<T,N,M> operator*( matrix<T,N,M> const & A, matrix<T,N,M> const
 // x * A - rowvec:
 
 template< typename T, int N, int M >
-constexpr rowvec<T,N> operator*( rowvec<T,N> const & x, matrix<T,N,M> const & A )
+constexpr rowvec<T,M> operator*( rowvec<T,N> const & x, matrix<T,N,M> const & A )
 {
-    rowvec<T,N> result( 0 );
+    rowvec<T,M> result( 0 );
     for ( int row = 0; row < A.rows(); ++row )
     {
         for ( int col = 0; col < A.columns(); ++col )
@@ -417,7 +433,7 @@ constexpr rowvec<T,N> operator*( rowvec<T,N> const & x, matrix<T,N,M> const & A
 // A * x - colvec:
 
 template< typename T, int N, int M >
-constexpr colvec<T,N> operator*( matrix<T,N,M> const & A, colvec<T,N> const & x )
+constexpr colvec<T,N> operator*( matrix<T,N,M> const & A, colvec<T,M> const & x )
 {
     colvec<T,N> result( 0 );
     for ( int row = 0; row < A.rows(); ++row )
-- 
2.43.0


From 041dd469b8d989771992a0d612ab47502b2ac118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 07/42] fix: core::range: a range with negative step was always
 empty

---
 include/core/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/core/range.hpp b/include/core/range.hpp
index a872826..6411a71 100644
--- a/include/core/range.hpp
+++ b/include/core/range.hpp
@@ -124,7 +124,7 @@ struct step_range_proxy
 
         bool operator==( iterator const & other ) const
         {
-            return !infinite && this->current >= other.current;
+            return !infinite && ( step < T(0) ? this->current <= other.current : this->current >= other.current );
         }
 
         bool operator!=( iterator const & other ) const
-- 
2.43.0


From 4de0b5523ce4d64cffee3b9a19f6c937c4d57778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 08/42] fix: tc0, tc1: current( compare a/b ) did not return
 the compare value

---
 include/mcu/atmega328.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 9faf03d..175b9f2 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -955,7 +955,7 @@ namespace tc0
 
             inline auto current( a )
             {
-                a{ reg::ocr0a::whole::read() };
+                return a{ reg::ocr0a::whole::read() };
             }
 
             inline auto set( a v )
@@ -965,7 +965,7 @@ namespace tc0
 
             inline auto current( b )
             {
-                b{ reg::ocr0b::whole::read() };
+                return b{ reg::ocr0b::whole::read() };
             }
 
             inline auto set( b v )
@@ -1380,7 +1380,7 @@ namespace tc1
 
             inline auto current( a )
             {
-                a{ reg::ocr1a::whole::read() };
+                return a{ reg::ocr1a::whole::read() };
             }
 
             inline auto set( a v )
@@ -1390,7 +1390,7 @@ namespace tc1
 
             inline auto current( b )
             {
-                b{ reg::ocr1b::whole::read() };
+                return b{ reg::ocr1b::whole::read() };
             }
 
             inline auto set( b v )
-- 
2.43.0


From 01991b3c665b5e41fd0c8b2cb3c46ad6ee6ed08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 09/42] fix: tc0, tc1: current( waveform ) must combine the
 mode bits as set( waveform ) splits them

---
 include/mcu/atmega328.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 175b9f2..54604bc 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -899,7 +899,7 @@ namespace tc0
 
         inline auto current( waveform w )
         {
-            return waveform( shl(reg::tccr0b::wgm02::read(), WGM02) + reg::tccr0a::wgm0::read() );
+            return waveform( shl(reg::tccr0b::wgm02::read(), 2) + reg::tccr0a::wgm0::read() );
         }
 
         inline auto set( waveform w )
@@ -1324,7 +1324,7 @@ namespace tc1
 
         inline auto current( waveform )
         {
-            return waveform( shl(reg::tccr1b::wgm1::read(), WGM12) + reg::tccr1a::wgm1::read() );
+            return waveform( shl(reg::tccr1b::wgm1::read(), 2) + reg::tccr1a::wgm1::read() );
         }
 
         inline auto set( waveform w )
-- 
2.43.0


From a5d28e7db176ffe502671f5f371e1f60f9adc6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 10/42] fix: tc1: the force output compare bits are in TCCR1C,
 not TCCR1A

---
 include/mcu/atmega328.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 54604bc..e615433 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1131,8 +1131,8 @@ namespace tc1
         namespace tccr1c
         {
             using whole = register8_t< rw_t, tccr1c_addr >;
-            using foc1a = bitfield8_t< rw_t, tccr1a_addr, FOC1A >;
-            using foc1b = bitfield8_t< rw_t, tccr1a_addr, FOC1B >;
+            using foc1a = bitfield8_t< rw_t, tccr1c_addr, FOC1A >;
+            using foc1b = bitfield8_t< rw_t, tccr1c_addr, FOC1B >;
 
             using value_type = whole::value_type;
         }
-- 
2.43.0


From c08da869606ee718de529a7691a2f517b61c1c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 11/42] fix: ei: pin change interrupt flags are cleared by
 writing one

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index e615433..f9b0227 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -576,7 +576,7 @@ namespace ei
     // 17.2.5 PCIFR: Pin Change Interrupt Flag Register
 
     template< pcint i >
-    using pcifr = bitfield8_t< rw_t, pcifr_addr, to_integral(i) >;
+    using pcifr = bitfield8_t< rc_w1_t, pcifr_addr, to_integral(i) >;
 
     inline auto pin_change_int2_flag()
     {
-- 
2.43.0


From b28988b3ecf0bddd92d6aca0cc3d58e65df493c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 12/42] fix: twi: sync write() sent the address twice and never
 the data byte

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index f9b0227..c99f5bb 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -2079,7 +2079,7 @@ namespace twi
                 if ( expect_status( 0x18 ) )
                     return true;  // error
 
-                data( address );
+                data( byte );
 
                 if ( expect_status( 0x28 ) )
                     return true;  // error
-- 
2.43.0


From 2475bca0e51f4de0db18f1755785a94e56636520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 13/42] fix: twi: sync init() must enable the pull-ups via the
 port register, writing the pin register toggles them

---
 include/mcu/atmega328.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index c99f5bb..64cc66c 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1981,8 +1981,8 @@ namespace twi
                 set( twi::enable::interface::on );
 
                 // enable internal pull-up resistors for sda, scl:
-                gpio<config::twi_port>::p<config::sda_pin>::inp::set();
-                gpio<config::twi_port>::p<config::scl_pin>::inp::set();
+                gpio<config::twi_port>::p<config::sda_pin>::out::set();
+                gpio<config::twi_port>::p<config::scl_pin>::out::set();
             }
 
             inline auto flag()   { return current( twi::interrupt::flag{} ); }
@@ -2015,8 +2015,8 @@ namespace twi
                 , twi::control::prescale::factor ps = twi::control::prescale::factor::x1 )
             {
                 // enable internal pull-up resistors for sda, scl:
-                gpio<config::twi_port>::p<config::sda_pin>::inp::set();
-                gpio<config::twi_port>::p<config::scl_pin>::inp::set();
+                gpio<config::twi_port>::p<config::sda_pin>::out::set();
+                gpio<config::twi_port>::p<config::scl_pin>::out::set();
 
                 //set SCL to 400kHz
                 TWSR = 0x00;
-- 
2.43.0


From 8b1b90d4e9ac215aaab6c0372b9c6a8c69cd060e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 14/42] fix: std20::numeric_limits (AVR): unsigned types are
 not signed

---
 include/std/limits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/std/limits.hpp b/include/std/limits.hpp
index 72065b2..0b7f5b0 100644
--- a/include/std/limits.hpp
+++ b/include/std/limits.hpp
@@ -57,7 +57,7 @@ class numeric_limits<__UINT8_TYPE__>
 {
     using T = __UINT8_TYPE__;
 public:
-    static constexpr bool is_signed  = true;
+    static constexpr bool is_signed  = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -83,7 +83,7 @@ class numeric_limits<__UINT16_TYPE__>
 {
     using T = __UINT16_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -109,7 +109,7 @@ class numeric_limits<__UINT32_TYPE__>
 {
     using T = __UINT32_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -135,7 +135,7 @@ class numeric_limits<__UINT64_TYPE__>
 {
     using T = __UINT64_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
-- 
2.43.0


From 7356eaae54fb1c0dfcdfbf3b83a32c43c6f420b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 15/42] fix: std/tuple.hpp (AVR): missing #endif

---
 include/std/tuple.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/std/tuple.hpp b/include/std/tuple.hpp
index 23e958c..a72018d 100644
--- a/include/std/tuple.hpp
+++ b/include/std/tuple.hpp
@@ -33,4 +33,6 @@ struct ignore
 
 } // namespace std20
 
+#endif // __AVR
+
 #endif // STD_TUPLE_INCLUDED
-- 
2.43.0


From 61afe0f7ee3f5f815a0799216b9af018f45ed8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 16/42] fix: std20::complex (AVR): assignment operators did not
 return

---
 include/std/complex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/std/complex.hpp b/include/std/complex.hpp
index f4ad926..176f63c 100644
--- a/include/std/complex.hpp
+++ b/include/std/complex.hpp
@@ -46,12 +46,14 @@ public:
     {
         re_ = x;
         im_ = T();
+        return *this;
     }
 
     constexpr complex & operator=( complex const & cx )
     {
         re_ = cx.real();
         im_ = cx.imag();
+        return *this;
     }
 
     template<class X>
@@ -59,6 +61,7 @@ public:
     {
         re_ = cx.real();
         im_ = cx.imag();
+        return *this;
     }
 
     constexpr T real() const
-- 
2.43.0


From 7276d576990d5063ac9ab592949075202b6a5e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 17/42] fix: kalman: invert the innovation covariance, not its
 transpose

For two measurements rounding makes the innovation covariance slightly
asymmetric; as inverted() of a 2x2 matrix gives the transpose of the inverse,
the asymmetry of the error covariance grew with each update and the covariance
eventually diverged.
---
 include/dsp/kalman.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/dsp/kalman.hpp b/include/dsp/kalman.hpp
index dc44dce..408362b 100644
--- a/include/dsp/kalman.hpp
+++ b/include/dsp/kalman.hpp
@@ -89,7 +89,7 @@ public:
         // 2. Correct (measurement update)
 
         // 2a: Compute the Kalman gain:
-        K = P * transposed(H) * inverted(H * P * transposed(H) + R);
+        K = P * transposed(H) * inverse(H * P * transposed(H) + R);
 
         // 2b: Update estimate with measurement:
         xhat = xhat + K * (z - H * xhat);
@@ -126,6 +126,20 @@ private:
         return num::eye<real_t,S>();
     }
 
+    // num::inverted() gives the transpose of the inverse of a 2x2 matrix. The innovation
+    // covariance is symmetric only up to rounding, and inverting its transpose that way
+    // lets the asymmetry of the error covariance grow with every update.
+
+    static real_t inverse( real_t v )
+    {
+        return inverted( v );
+    }
+
+    static num::matrix<T,2,2> inverse( num::matrix<T,2,2> const & A )
+    {
+        return inverted( transposed( A ) );
+    }
+
 private:
     A_t const A;    // System dynamics matrix:
     B_t const B;    // Control input matrix
-- 
2.43.0


From ef16a4b2d09c9ae7f0bb499beaa42ef2c73ef506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 18/42] fix: fixed_point: round to the nearest value when
 adding 0.5 is not exact

From 2^(digits-1) quanta of a float on, adding 0.5 rounded to even: a value that
is exactly representable in the format was constructed one quantum off.
---
 include/num/fixed-point.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index 533bb8a..6732de8 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -102,11 +102,11 @@ public:
     {}
 
     constexpr fixed_point( float value )
-    : storage( static_cast<T>( detail::power2(F) * value + (value >= 0.0f ? 0.5f : -0.5f) ) )
+    : storage( rounded( detail::power2(F) * value ) )
     {}
 
     constexpr fixed_point( double value )
-    : storage( static_cast<T>( detail::power2(F) * value + (value >= 0.0 ? 0.5 : -0.5) ) )
+    : storage( rounded( detail::power2(F) * value ) )
     {}
 
     // Observers:
@@ -216,6 +216,18 @@ public:
         return !( a < b );
     }
 
+private:
+    // Nearest representation, ties away from zero; adding 0.5 may itself round in U:
+
+    template< typename U >
+    constexpr static T rounded( U value )
+    {
+        const T whole = static_cast<T>( value );
+        const U rest  = value - whole;
+
+        return static_cast<T>( whole + (rest >= U(0.5)) - (rest <= U(-0.5)) );
+    }
+
 private:
     rep storage;
 };
-- 
2.43.0


From db8ebd4356c9a5ae86e36a8f8eeb272ba6556e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 19/42] fix: fixed_point: construct from long double by
 rounding, as from float and double

---
 include/num/fixed-point.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index 6732de8..5e031fc 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -109,6 +109,10 @@ public:
     : storage( rounded( detail::power2(F) * value ) )
     {}
 
+    constexpr fixed_point( long double value )
+    : storage( rounded( detail::power2(F) * value ) )
+    {}
+
     // Observers:
 
     constexpr auto min() const
-- 
2.43.0


From c2a719ccf687880eb4833c5d2ea1df15c1f43ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:58 +0000
Subject: [PATCH 20/42] fix: fixed_point: as<U>() for an integral U narrower
 than the representation

3.5 as int8_t of a 16-bit format gave 0: the representation was truncated before
it was scaled.
---
 include/num/fixed-point.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index 5e031fc..a77c49a 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -133,7 +133,15 @@ public:
     template< typename U >
     constexpr auto as() const
     {
-        return static_cast<U>( underlying_value() ) / detail::power2(F);
+        if constexpr ( std20::is_integral_v<U> )
+        {
+            // the representation, unlike the value, may not fit U
+            return static_cast<U>( underlying_value() / detail::power2(F) );
+        }
+        else
+        {
+            return static_cast<U>( underlying_value() ) / detail::power2(F);
+        }
     }
 
     constexpr auto as_double() const
-- 
2.43.0


From afd906bf56260e8f020e58c853dd3c67d331950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 21/42] fix: matrix: the sum of two 1x1 matrices was ambiguous

---
 include/num/matrix.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/num/matrix.hpp b/include/num/matrix.hpp
index a7de7fe..607639a 100644
--- a/include/num/matrix.hpp
+++ b/include/num/matrix.hpp
@@ -238,6 +238,14 @@ constexpr matrix<T,N,M> operator+( matrix<T,1,1> const & A, matrix<T,N,M> const
     return A(0) + B;
 }
 
+// A1x1 + A1x1:
+
+template< typename T >
+constexpr matrix<T,1,1> operator+( matrix<T,1,1> const & A, matrix<T,1,1> const & B )
+{
+    return { A(0) + B(0) };
+}
+
 // A1x1 * A1x1:
 template< typename T >
 constexpr matrix<T,1,1> operator*( matrix<T,1,1> const & A, matrix<T,1,1> const & B )
-- 
2.43.0


From 0320d297175b63de75b7b41ac15e238e5454f1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 22/42] fix: dbP_factor and dbV_factor of an integer divide in
 floating point

---
 include/dsp/filter-design.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index f1256d5..bdee30d 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -40,7 +40,9 @@ auto dbP( T vout, core::identity_t<T> vin )
 template< typename T >
 auto dbP_factor( T dbv )
 {
-    return std::pow( T{10}, std::abs( dbv ) / T{10} );
+    using U = std::common_type_t<float, T>;
+
+    return std::pow( U{10}, std::abs( core::as<U>( dbv ) ) / U{10} );
 }
 
 // factor as dbV
@@ -56,7 +58,9 @@ auto dbV( T vout, U vin )
 template< typename T >
 auto dbV_factor( T dbv )
 {
-    return dbP_factor( dbv / T{2} );
+    using U = std::common_type_t<float, T>;
+
+    return dbP_factor( core::as<U>( dbv ) / U{2} );
 }
 
 } // namespace dsp
-- 
2.43.0


From 350f28ae3c0245b7a18fdc26bbbef1070383ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:16 +0000
Subject: [PATCH 23/42] fix: dbV of an integer output keeps the fraction of the
 input

---
 include/dsp/filter-design.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index bdee30d..38ec07f 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -50,7 +50,9 @@ auto dbP_factor( T dbv )
 template< typename T, typename U >
 auto dbV( T vout, U vin )
 {
-    return T{2} * dbP( vout, vin );
+    using V = std::common_type_t<float, T, U>;
+
+    return V{2} * dbP<V>( vout, vin );
 }
 
 // dbV as factor
-- 
2.43.0


From 4501498eb708ace04d68bc1af7b1d306e9489101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:00 +0000
Subject: [PATCH 24/42] fix: core::range: a range without step ran past an end
 it does not hit exactly

---
 include/core/range.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/core/range.hpp b/include/core/range.hpp
index 6411a71..ef0a3f8 100644
--- a/include/core/range.hpp
+++ b/include/core/range.hpp
@@ -83,6 +83,16 @@ struct range_proxy
         iterator( T current_ )
         : detail::range_iter_base<T>( current_ )
         {}
+
+        bool operator==( iterator const & other ) const
+        {
+            return this->current >= other.current;
+        }
+
+        bool operator!=( iterator const & other ) const
+        {
+            return ! ( *this == other );
+        }
     };
 
     range_proxy( T first_, T last_)
-- 
2.43.0


From 6f2e181bcac06e23d85da69de7912ce5e49a1fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:47 +0000
Subject: [PATCH 25/42] fix: twi: address mask bits are bits 7..1 of TWAMR

---
 include/mcu/atmega328.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 64cc66c..222eea4 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1784,7 +1784,8 @@ namespace twi
         namespace twamr
         {
             using whole = register8_t< rw_t, addr_twamr >;
-            using twam  = bitfield8_t< rw_t, addr_twamr, TWAM6, TWAM0 >;
+            // Note: bits 7..1; avr/io.h defines TWAM6..TWAM0 as 6..0
+            using twam  = bitfield8_t< rw_t, addr_twamr, 7, 1 >;
         }
     } // namespace reg
 
-- 
2.43.0


From 288b1f0c75c0b6eaf0c6954202fc6dbd1f648b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:47 +0000
Subject: [PATCH 26/42] fix: twi: init uses the given prescale factor

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 222eea4..8a1fe17 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -2020,7 +2020,7 @@ namespace twi
                 gpio<config::twi_port>::p<config::scl_pin>::out::set();
 
                 //set SCL to 400kHz
-                TWSR = 0x00;
+                TWSR = to_integral( ps );
                 TWBR = to_integral( br );
                 //enable TWI
                 TWCR = (1<<TWEN);
-- 
2.43.0


From f10a56c1f1c09d920c17b26a91a86db1b40300dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:47 +0000
Subject: [PATCH 27/42] fix: register: deferred write limits the value to its
 field

---
 include/mcu/register.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/register.hpp b/include/mcu/register.hpp
index 48f5671..50bcff8 100644
--- a/include/mcu/register.hpp
+++ b/include/mcu/register.hpp
@@ -444,7 +444,7 @@ public:
 
     static auto write_lazy( value_type value )
     {
-        return write_proxy< T, io, address, rngmask<T>(hi,lo), 0 >{ shl(value, lo) };
+        return write_proxy< T, io, address, rngmask<T>(hi,lo), 0 >{ static_cast<T>( shl(value, lo) & rngmask<T>(hi,lo) ) };
     }
 
     // Set a single bit:
-- 
2.43.0


From cf74d54fe81eb2c752cadff775eb052919170895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:16 +0000
Subject: [PATCH 28/42] fix: register: writing control bits keeps flags in the
 same register pending

---
 include/mcu/atmega328.hpp | 43 +++++++++++++++++++++++----------------
 include/mcu/register.hpp  | 34 +++++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+), 17 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 8a1fe17..d426e0b 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1768,15 +1768,18 @@ namespace twi
 
         namespace twcr
         {
+            template< typename T >
+            using io_t = rw_flags_t< T, bitmask<T>( TWINT ) >;   // keep TWINT pending
+
             using whole = register8_t< rw_t, addr_twcr >;
             using twintc= bitfield8_t< rc_w1_t, addr_twcr, TWINT >;
-            using twint = bitfield8_t< rw_t, addr_twcr, TWINT >;
-            using twea  = bitfield8_t< rw_t, addr_twcr, TWEA  >;
-            using twsta = bitfield8_t< rw_t, addr_twcr, TWSTA >;
-            using twsto = bitfield8_t< rw_t, addr_twcr, TWSTO >;
-            using twwc  = bitfield8_t< rw_t, addr_twcr, TWWC  >;
-            using twen  = bitfield8_t< rw_t, addr_twcr, TWEN  >;
-            using twie  = bitfield8_t< rw_t, addr_twcr, TWIE  >;
+            using twint = bitfield8_t< io_t, addr_twcr, TWINT >;
+            using twea  = bitfield8_t< io_t, addr_twcr, TWEA  >;
+            using twsta = bitfield8_t< io_t, addr_twcr, TWSTA >;
+            using twsto = bitfield8_t< io_t, addr_twcr, TWSTO >;
+            using twwc  = bitfield8_t< io_t, addr_twcr, TWWC  >;
+            using twen  = bitfield8_t< io_t, addr_twcr, TWEN  >;
+            using twie  = bitfield8_t< io_t, addr_twcr, TWIE  >;
         }
 
         // 26.9.6 TWAMR: TWI (Slave) Address Mask Register
@@ -2120,14 +2123,17 @@ namespace ac
 
         namespace acsr
         {
+            template< typename T >
+            using io_t = rw_flags_t< T, bitmask<T>( ACI ) >;   // keep ACI pending
+
             using whole = register8_t< rw_t, addr_acsr >;
-            using acd   = bitfield8_t< rw_t, addr_acsr, ACD  >;
-            using acbg  = bitfield8_t< rw_t, addr_acsr, ACBG >;
+            using acd   = bitfield8_t< io_t, addr_acsr, ACD  >;
+            using acbg  = bitfield8_t< io_t, addr_acsr, ACBG >;
             using aco   = bitfield8_t< r_t , addr_acsr, ACO  >;
             using aci   = bitfield8_t< rc_w1_t, addr_acsr, ACI  >;
-            using acie  = bitfield8_t< rw_t, addr_acsr, ACIE >;
-            using acic  = bitfield8_t< rw_t, addr_acsr, ACIC >;
-            using acis  = bitfield8_t< rw_t, addr_acsr, ACIS1, ACIS0 >;
+            using acie  = bitfield8_t< io_t, addr_acsr, ACIE >;
+            using acic  = bitfield8_t< io_t, addr_acsr, ACIC >;
+            using acis  = bitfield8_t< io_t, addr_acsr, ACIS1, ACIS0 >;
 
             using value_type = whole::value_type;
         }
@@ -2309,13 +2315,16 @@ namespace adc
 
         namespace adcsra
         {
+            template< typename T >
+            using io_t = rw_flags_t< T, bitmask<T>( ADIF ) >;   // keep ADIF pending
+
             using whole = register8_t< rw_t, addr_adcsra >;
-            using aden  = bitfield8_t< rw_t   , addr_adcsra, ADEN >;        // ADC Enable
-            using adsc  = bitfield8_t< rw_t   , addr_adcsra, ADSC >;        // ADC Start Conversion
-            using adate = bitfield8_t< rw_t   , addr_adcsra, ADATE>;        // ADC Auto Trigger Enable
+            using aden  = bitfield8_t< io_t, addr_adcsra, ADEN >;        // ADC Enable
+            using adsc  = bitfield8_t< io_t, addr_adcsra, ADSC >;        // ADC Start Conversion
+            using adate = bitfield8_t< io_t, addr_adcsra, ADATE>;        // ADC Auto Trigger Enable
             using adif  = bitfield8_t< rc_w1_t, addr_adcsra, ADIF >;        // ADC Interrupt Flag
-            using adie  = bitfield8_t< rw_t   , addr_adcsra, ADIE >;        // ADC Interrupt Enable
-            using adps  = bitfield8_t< rw_t   , addr_adcsra, ADPS2, ADPS0 >;// ADC Prescaler Select Bits
+            using adie  = bitfield8_t< io_t, addr_adcsra, ADIE >;        // ADC Interrupt Enable
+            using adps  = bitfield8_t< io_t, addr_adcsra, ADPS2, ADPS0 >;// ADC Prescaler Select Bits
 
             using value_type = whole::value_type;
         }
diff --git a/include/mcu/register.hpp b/include/mcu/register.hpp
index 50bcff8..fea0e2d 100644
--- a/include/mcu/register.hpp
+++ b/include/mcu/register.hpp
@@ -276,6 +276,40 @@ struct rw_t : r_t<T>, w_t<T>, detail::togglebit_t<T>
     static constexpr Mutability mutability = Mutability::rw;
 };
 
+// Read and write bits in a register that also contains flags that are cleared by write 1:
+// flags that are not the subject of the write are written 0, so that they stay pending.
+
+template< typename T, T flags >
+struct rw_flags_t : r_t<T>
+{
+    static constexpr Mutability mutability = Mutability::rw;
+
+    static void write( address_t address, T value )
+    {
+        *to_pointer<T>(address) = value;
+    }
+
+    static void write( address_t address, T mask, T value )
+    {
+        *to_pointer<T>(address) = ( *to_pointer<T>(address) & ~( mask | flags ) ) | ( value & mask );
+    }
+
+    static void set( address_t address, index_t bit )
+    {
+        write( address, bitmask<T>( bit ), bitmask<T>( bit ) );
+    }
+
+    static void clear( address_t address, index_t bit )
+    {
+        write( address, bitmask<T>( bit ), 0 );
+    }
+
+    static void toggle( address_t address, index_t bit )
+    {
+        *to_pointer<T>(address) = ( *to_pointer<T>(address) & ~flags ) ^ bitmask<T>( bit );
+    }
+};
+
 // Read bit, clear bit by write 1:
 
 template< typename T >
-- 
2.43.0


From aa11cbae65d3e4bb2a87ce737d54c237337733b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:44 +0000
Subject: [PATCH 29/42] fix: register: clearing a flag writes one to that flag
 only

---
 include/mcu/atmega328.hpp |  6 +++---
 include/mcu/register.hpp  | 21 ++++++++++++++++++++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index d426e0b..e00f77e 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1772,7 +1772,7 @@ namespace twi
             using io_t = rw_flags_t< T, bitmask<T>( TWINT ) >;   // keep TWINT pending
 
             using whole = register8_t< rw_t, addr_twcr >;
-            using twintc= bitfield8_t< rc_w1_t, addr_twcr, TWINT >;
+            using twintc= bitfield8_t< rc_w1_keep_t, addr_twcr, TWINT >;
             using twint = bitfield8_t< io_t, addr_twcr, TWINT >;
             using twea  = bitfield8_t< io_t, addr_twcr, TWEA  >;
             using twsta = bitfield8_t< io_t, addr_twcr, TWSTA >;
@@ -2130,7 +2130,7 @@ namespace ac
             using acd   = bitfield8_t< io_t, addr_acsr, ACD  >;
             using acbg  = bitfield8_t< io_t, addr_acsr, ACBG >;
             using aco   = bitfield8_t< r_t , addr_acsr, ACO  >;
-            using aci   = bitfield8_t< rc_w1_t, addr_acsr, ACI  >;
+            using aci   = bitfield8_t< rc_w1_keep_t, addr_acsr, ACI  >;
             using acie  = bitfield8_t< io_t, addr_acsr, ACIE >;
             using acic  = bitfield8_t< io_t, addr_acsr, ACIC >;
             using acis  = bitfield8_t< io_t, addr_acsr, ACIS1, ACIS0 >;
@@ -2322,7 +2322,7 @@ namespace adc
             using aden  = bitfield8_t< io_t, addr_adcsra, ADEN >;        // ADC Enable
             using adsc  = bitfield8_t< io_t, addr_adcsra, ADSC >;        // ADC Start Conversion
             using adate = bitfield8_t< io_t, addr_adcsra, ADATE>;        // ADC Auto Trigger Enable
-            using adif  = bitfield8_t< rc_w1_t, addr_adcsra, ADIF >;        // ADC Interrupt Flag
+            using adif  = bitfield8_t< rc_w1_keep_t, addr_adcsra, ADIF >;        // ADC Interrupt Flag
             using adie  = bitfield8_t< io_t, addr_adcsra, ADIE >;        // ADC Interrupt Enable
             using adps  = bitfield8_t< io_t, addr_adcsra, ADPS2, ADPS0 >;// ADC Prescaler Select Bits
 
diff --git a/include/mcu/register.hpp b/include/mcu/register.hpp
index fea0e2d..f9c981a 100644
--- a/include/mcu/register.hpp
+++ b/include/mcu/register.hpp
@@ -197,10 +197,21 @@ struct togglebit_t
     }
 };
 
-// Clear bit by write 1:
+// Clear bit by write 1, in a register with flags only: other flags are written 0 to stay pending:
 
 template< typename T >
 struct clearbit_w1_t
+{
+    static void clear( address_t address, index_t bit )
+    {
+        *to_pointer<T>(address) = bitmask<T>( bit );
+    }
+};
+
+// Clear bit by write 1, in a register that also contains other bits than flags:
+
+template< typename T >
+struct clearbit_w1_keep_t
 {
     static void clear( address_t address, index_t bit )
     {
@@ -318,6 +329,14 @@ struct rc_w1_t : detail::getbit_t<T>, detail::clearbit_w1_t<T>
     static constexpr Mutability mutability = Mutability::rc_w1;
 };
 
+// Read bit, clear bit by write 1, keep other bits of the register:
+
+template< typename T >
+struct rc_w1_keep_t : detail::getbit_t<T>, detail::clearbit_w1_keep_t<T>
+{
+    static constexpr Mutability mutability = Mutability::rc_w1;
+};
+
 // Read bit, clear bit by write 0:
 
 template< typename T >
-- 
2.43.0


From 7afb1e039046649ba51fc41c71f8f426d1256b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:34 +0000
Subject: [PATCH 30/42] fix: the 1 ms heartbeat of the AVR examples takes 250
 timer steps, not 251

---
 example/avr/avr-adc-dac-isr-atmega.e.cpp | 2 +-
 example/avr/avr-blink-led-isr.e.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/example/avr/avr-adc-dac-isr-atmega.e.cpp b/example/avr/avr-adc-dac-isr-atmega.e.cpp
index ccb2ad9..a775c36 100644
--- a/example/avr/avr-adc-dac-isr-atmega.e.cpp
+++ b/example/avr/avr-adc-dac-isr-atmega.e.cpp
@@ -163,7 +163,7 @@ namespace beat
 
         // register timsk0:
         set( enable::interrupt::on::match_a::on );
-        set( value::compare::a( count1ms ) );
+        set( value::compare::a( count1ms - 1 ) );
 
         // registers tccr1a, tccr10
         set( output::waveform::ctc )
diff --git a/example/avr/avr-blink-led-isr.e.cpp b/example/avr/avr-blink-led-isr.e.cpp
index 98c0b57..a49d8c5 100644
--- a/example/avr/avr-blink-led-isr.e.cpp
+++ b/example/avr/avr-blink-led-isr.e.cpp
@@ -44,7 +44,7 @@ void init_timer0_1ms()
     static_assert( count1ms == 250 );
 
     TCCR0A |= bitmask( WGM01 );         // set the Timer Mode to CTC
-    OCR0A   = count1ms;                 // set the count value
+    OCR0A   = count1ms - 1;             // set the count value, counting starts at zero
     TIMSK0 |= bitmask( OCIE0A );        // set the ISR COMPA vector
     TCCR0B |= bitmask( CS01, CS00 );    // set prescaler to 64 and start the timer
 }
-- 
2.43.0


From c47283e5d6d6054a1c878331509f88d524911d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:22 +0000
Subject: [PATCH 31/42] fix: the timing program times the estimator update also
 when optimized

---
 time/avr-kalman-time.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/time/avr-kalman-time.cpp b/time/avr-kalman-time.cpp
index 5629a33..66f6ea7 100644
--- a/time/avr-kalman-time.cpp
+++ b/time/avr-kalman-time.cpp
@@ -270,5 +270,8 @@ int main()
 
         // Process a time-step:
         estim.update( u, z );
+
+        // Keep the optimizer from discarding the update that is being timed:
+        asm volatile( "" : : "r"( &estim ) : "memory" );
     } // for(t)
 }
-- 
2.43.0


From d31d38e53ec5ce5502f532a9ae5c73408eb40ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:22 +0000
Subject: [PATCH 32/42] fix: mk-avr-kalman-time.py builds the timing program by
 its name

---
 time/mk-avr-kalman-time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/time/mk-avr-kalman-time.py b/time/mk-avr-kalman-time.py
index 84fb1e6..fbb4fcd 100644
--- a/time/mk-avr-kalman-time.py
+++ b/time/mk-avr-kalman-time.py
@@ -21,7 +21,7 @@ optimizations = ('Os', 'O2')
 std      = 'c++17'
 mcu      = 'atmega328p'
 fcpu     = '16000000L'
-filename = 'kalman-time-avr.cpp'
+filename = 'avr-kalman-time.cpp'
 verbose  = '-vv'
 
 def remove_ext(path):
-- 
2.43.0


From eedcad87ac34e0bbe2fdb876215e813f5e112c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:23 +0000
Subject: [PATCH 33/42] fix: avr-gcc.py runs without -d and -v on Python 3

---
 script/avr-gcc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/script/avr-gcc.py b/script/avr-gcc.py
index 1b72c77..aae5ecd 100644
--- a/script/avr-gcc.py
+++ b/script/avr-gcc.py
@@ -189,16 +189,19 @@ def main():
     parser.add_argument(
         '-d', '--debug',
         action='count',
+        default=0,
         help='report debug information (2 levels)')
 
     parser.add_argument(
         '-v', '--verbose',
         action='count',
+        default=0,
         help='report processing steps (3 levels)')
 
     parser.add_argument(
         '-m', '--macros',
         action='count',
+        default=0,
         help='report predefined macros')
 
     parser.add_argument(
-- 
2.43.0


From 1720f74ba4a87e9bde696900bac937f9a2bb9c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:23 +0000
Subject: [PATCH 34/42] fix: the kalman-sim make scripts name the example and
 its headers

---
 example/avr/mk-avr-kalman-sim.e.py | 2 +-
 example/desktop/mk-kalman-sim.py   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/example/avr/mk-avr-kalman-sim.e.py b/example/avr/mk-avr-kalman-sim.e.py
index dad1167..41cd89a 100644
--- a/example/avr/mk-avr-kalman-sim.e.py
+++ b/example/avr/mk-avr-kalman-sim.e.py
@@ -16,7 +16,7 @@ std      = 'c++17'
 opt      = '-O2'
 mcu      = 'atmega328p'
 fcpu     = '16000000L'
-filename = 'avr-kalman-sim.cpp'
+filename = 'avr-kalman-sim.e.cpp'
 verbose  = '-vv'
 include  = '../../include'
 
diff --git a/example/desktop/mk-kalman-sim.py b/example/desktop/mk-kalman-sim.py
index a4831c4..f9c0b17 100644
--- a/example/desktop/mk-kalman-sim.py
+++ b/example/desktop/mk-kalman-sim.py
@@ -16,15 +16,15 @@ nt       = 'fp32_t'
 
 std      = 'c++17'
 opt      = '-O2'
-basename = 'kalman-sim'
+basename = 'kalman-sim.e'
 cppname  = basename + '.cpp'
 exename  = basename + '.exe'
 output   = basename + '.out.txt'
 
 if msvc:
-    tpl = 'cl -EHsc -std:c++latest {opt} -DKE_NUMERIC_TYPE={nt} -I../include {cppname} && {exename}'
+    tpl = 'cl -EHsc -std:c++latest {opt} -DKE_NUMERIC_TYPE={nt} -I../../include {cppname} && {exename}'
 else:
-    tpl = 'g++ -std={std} -Wall {opt} -DKE_NUMERIC_TYPE={nt} -I../include -o {exename} {cppname} && {exename}'
+    tpl = 'g++ -std={std} -Wall {opt} -DKE_NUMERIC_TYPE={nt} -I../../include -o {exename} {cppname} && {exename}'
 
 cmd = tpl.format(nt=nt, std=std, opt=opt, cppname=cppname, exename=exename)
 
-- 
2.43.0


From e11099932466e32dd7df32213f6df92b71bc464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:45 +0000
Subject: [PATCH 35/42] fix: avr-gcc.py reports that there is nothing to
 compile

---
 script/avr-gcc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/script/avr-gcc.py b/script/avr-gcc.py
index aae5ecd..1fb1ea3 100644
--- a/script/avr-gcc.py
+++ b/script/avr-gcc.py
@@ -153,6 +153,8 @@ def print_size(opt, out_base):
 def build(opt, paths, out_base):
     """Build compilations and link products"""
     n = 0
+    if not paths:
+        return n
     if not out_base:
         out_base = remove_ext(paths[0])
     for f in paths:
-- 
2.43.0


From 4e533addbf3361d054b06ab420ec20da428856ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:45 +0000
Subject: [PATCH 36/42] fix: avr-gcc-predefined.py reads the null device of the
 platform

---
 script/avr-gcc-predefined.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/avr-gcc-predefined.py b/script/avr-gcc-predefined.py
index ecf1997..afcee0d 100644
--- a/script/avr-gcc-predefined.py
+++ b/script/avr-gcc-predefined.py
@@ -21,7 +21,7 @@ def main():
         raise RuntimeError("expected environment variable {} to be set to root of AVR-GCC.".format(e))
 
     cxx = avr_gcc_root + os.path.normpath('/bin/avr-g++')
-    cmd = '"{cxx}" -E -dM -mmcu={mcu} - < nul'.format(cxx=cxx, mcu=mcu)
+    cmd = '"{cxx}" -E -dM -mmcu={mcu} - < {nul}'.format(cxx=cxx, mcu=mcu, nul=os.devnull)
 
     os.system( cmd)
 
-- 
2.43.0


From 040ef9854fea47e250570cfb88e062437dc35bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:49 +0000
Subject: [PATCH 37/42] Revert "fix: the kalman-sim make scripts name the
 example and its headers"

This reverts commit 1720f74ba4a87e9bde696900bac937f9a2bb9c72.
---
 example/avr/mk-avr-kalman-sim.e.py | 2 +-
 example/desktop/mk-kalman-sim.py   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/example/avr/mk-avr-kalman-sim.e.py b/example/avr/mk-avr-kalman-sim.e.py
index 41cd89a..dad1167 100644
--- a/example/avr/mk-avr-kalman-sim.e.py
+++ b/example/avr/mk-avr-kalman-sim.e.py
@@ -16,7 +16,7 @@ std      = 'c++17'
 opt      = '-O2'
 mcu      = 'atmega328p'
 fcpu     = '16000000L'
-filename = 'avr-kalman-sim.e.cpp'
+filename = 'avr-kalman-sim.cpp'
 verbose  = '-vv'
 include  = '../../include'
 
diff --git a/example/desktop/mk-kalman-sim.py b/example/desktop/mk-kalman-sim.py
index f9c0b17..a4831c4 100644
--- a/example/desktop/mk-kalman-sim.py
+++ b/example/desktop/mk-kalman-sim.py
@@ -16,15 +16,15 @@ nt       = 'fp32_t'
 
 std      = 'c++17'
 opt      = '-O2'
-basename = 'kalman-sim.e'
+basename = 'kalman-sim'
 cppname  = basename + '.cpp'
 exename  = basename + '.exe'
 output   = basename + '.out.txt'
 
 if msvc:
-    tpl = 'cl -EHsc -std:c++latest {opt} -DKE_NUMERIC_TYPE={nt} -I../../include {cppname} && {exename}'
+    tpl = 'cl -EHsc -std:c++latest {opt} -DKE_NUMERIC_TYPE={nt} -I../include {cppname} && {exename}'
 else:
-    tpl = 'g++ -std={std} -Wall {opt} -DKE_NUMERIC_TYPE={nt} -I../../include -o {exename} {cppname} && {exename}'
+    tpl = 'g++ -std={std} -Wall {opt} -DKE_NUMERIC_TYPE={nt} -I../include -o {exename} {cppname} && {exename}'
 
 cmd = tpl.format(nt=nt, std=std, opt=opt, cppname=cppname, exename=exename)
 
-- 
2.43.0


From 9293331adff16cd0b6b992cbf2a33f9620adba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:49 +0000
Subject: [PATCH 38/42] Revert "fix: the 1 ms heartbeat of the AVR examples
 takes 250 timer steps, not 251"

This reverts commit 7afb1e039046649ba51fc41c71f8f426d1256b07.
---
 example/avr/avr-adc-dac-isr-atmega.e.cpp | 2 +-
 example/avr/avr-blink-led-isr.e.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/example/avr/avr-adc-dac-isr-atmega.e.cpp b/example/avr/avr-adc-dac-isr-atmega.e.cpp
index a775c36..ccb2ad9 100644
--- a/example/avr/avr-adc-dac-isr-atmega.e.cpp
+++ b/example/avr/avr-adc-dac-isr-atmega.e.cpp
@@ -163,7 +163,7 @@ namespace beat
 
         // register timsk0:
         set( enable::interrupt::on::match_a::on );
-        set( value::compare::a( count1ms - 1 ) );
+        set( value::compare::a( count1ms ) );
 
         // registers tccr1a, tccr10
         set( output::waveform::ctc )
diff --git a/example/avr/avr-blink-led-isr.e.cpp b/example/avr/avr-blink-led-isr.e.cpp
index a49d8c5..98c0b57 100644
--- a/example/avr/avr-blink-led-isr.e.cpp
+++ b/example/avr/avr-blink-led-isr.e.cpp
@@ -44,7 +44,7 @@ void init_timer0_1ms()
     static_assert( count1ms == 250 );
 
     TCCR0A |= bitmask( WGM01 );         // set the Timer Mode to CTC
-    OCR0A   = count1ms - 1;             // set the count value, counting starts at zero
+    OCR0A   = count1ms;                 // set the count value
     TIMSK0 |= bitmask( OCIE0A );        // set the ISR COMPA vector
     TCCR0B |= bitmask( CS01, CS00 );    // set prescaler to 64 and start the timer
 }
-- 
2.43.0


From df2ea5ee2a94639cec1f2e387b58ec53aac1ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:49 +0000
Subject: [PATCH 39/42] fix: core/text.hpp includes <string> that it uses

---
 include/core/text.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/core/text.hpp b/include/core/text.hpp
index 4df0c6f..38f7d34 100644
--- a/include/core/text.hpp
+++ b/include/core/text.hpp
@@ -8,6 +8,8 @@
 #ifndef CORE_TEXT_HPP_INCLUDED
 #define CORE_TEXT_HPP_INCLUDED
 
+#include <string>
+
 namespace core {
 
 using Text = std::string;
-- 
2.43.0


From 7f1963f3a58862d7f2cdf520b9c80f0075fe4d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:49 +0000
Subject: [PATCH 40/42] fix: filter-design.hpp and filter.hpp no longer include
 each other

---
 include/dsp/chebyshev-design.hpp | 1 +
 include/dsp/filter-design.hpp    | 4 +++-
 include/dsp/onepole-design.hpp   | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dsp/chebyshev-design.hpp b/include/dsp/chebyshev-design.hpp
index cce9dd4..3f0f429 100644
--- a/include/dsp/chebyshev-design.hpp
+++ b/include/dsp/chebyshev-design.hpp
@@ -14,6 +14,7 @@
 
 #include "dsp/biquad-cascade.hpp"
 #include "dsp/filter-design.hpp"
+#include "dsp/filter.hpp"
 #include "core/core.hpp"
 
 #include <algorithm>
diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index 38ec07f..fb72188 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -10,9 +10,11 @@
 
 #include "core/shims.hpp"
 #include "core/traits.hpp"
-#include "dsp/filter.hpp"
 #include "num/constants.hpp"
 
+#include <cmath>
+#include <type_traits>
+
 namespace dsp {
 
 // algorithm: pre-warp frequency:
diff --git a/include/dsp/onepole-design.hpp b/include/dsp/onepole-design.hpp
index c1b597c..d843ab8 100644
--- a/include/dsp/onepole-design.hpp
+++ b/include/dsp/onepole-design.hpp
@@ -16,6 +16,7 @@
 
 #include "dsp/onepole.hpp"
 #include "dsp/filter-design.hpp"
+#include "dsp/filter.hpp"
 
 namespace dsp { namespace onepole_designs {
 
-- 
2.43.0


From 3080a06ef4388f533295fb3c8f8e1157ef89001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:03 +0000
Subject: [PATCH 41/42] fix: fixed-point division of negative numbers is usable
 in constant expressions

---
 include/num/fixed-point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index a77c49a..b5b2d24 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -172,7 +172,7 @@ public:
 
     constexpr auto operator/=( fixed_point rhs )
     {
-        storage = static_cast<T>( (static_cast<detail::promote_t<T>>(storage) << F ) / rhs.storage );
+        storage = static_cast<T>( (static_cast<detail::promote_t<T>>(storage) * ( detail::promote_t<T>{1} << F )) / rhs.storage );
         return *this;
     }
 
-- 
2.43.0


From 528990edba3e83319d11dc49f630a2f8b7cd6953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:41 +0000
Subject: [PATCH 42/42] fix: stepping ranges end where the next value does not
 fit their type

---
 include/core/range.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/core/range.hpp b/include/core/range.hpp
index ef0a3f8..e9f8867 100644
--- a/include/core/range.hpp
+++ b/include/core/range.hpp
@@ -13,6 +13,7 @@
 
 //#include <cassert>
 #include <iterator>
+#include <limits>
 #include <type_traits>
 
 #ifndef _MSC_VER
@@ -124,7 +125,21 @@ struct step_range_proxy
 
         iterator & operator++()
         {
-            this->current = first + ++factor * step; return *this;
+            if constexpr ( std::is_integral<T>::value )
+            {
+                // past the last value, the next one may not fit T: stop at the limit of T
+
+                using limits = std::numeric_limits<T>;
+
+                if      ( !infinite && step > T(0) && this->current > limits::max() - step ) this->current = limits::max();
+                else if ( !infinite && step < T(0) && this->current < limits::min() - step ) this->current = limits::min();
+                else this->current = static_cast<T>( this->current + step );
+            }
+            else
+            {
+                this->current = first + ++factor * step;
+            }
+            return *this;
         }
 
         iterator operator++( int )
-- 
2.43.0

