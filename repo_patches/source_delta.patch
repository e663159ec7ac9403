From 4429da15abbac6f6decaec47edea61b684610c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 01/30] fix: reject products of non-square operands whose
 dimensions do not match

---
 include/num/matrix.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/num/matrix.hpp b/include/num/matrix.hpp
index 5d7912b..c36d560 100644
--- a/include/num/matrix.hpp
+++ b/include/num/matrix.hpp
@@ -382,6 +382,8 @@ constexpr matrix<T,N,M> operator-( matrix<T,N,M> const & a, matrix<T,N,M> const
 template< typename T, int N, int M >
 constexpr matrix<T,N,M> operator*( matrix<T,N,M> const & A, matrix<T,N,M> const & B )
 {
+    static_assert( N == M, "operands must have matching dimensions" );
+
     matrix<T,N,M> result(0);
 
     for ( int row = 0; row < A.rows(); ++row )
@@ -403,6 +405,8 @@ constexpr matrix<T,N,M> operator*( matrix<T,N,M> const & A, matrix<T,N,M> const
 template< typename T, int N, int M >
 constexpr rowvec<T,N> operator*( rowvec<T,N> const & x, matrix<T,N,M> const & A )
 {
+    static_assert( N == M, "operands must have matching dimensions" );
+
     rowvec<T,N> result( 0 );
     for ( int row = 0; row < A.rows(); ++row )
     {
@@ -419,6 +423,8 @@ constexpr rowvec<T,N> operator*( rowvec<T,N> const & x, matrix<T,N,M> const & A
 template< typename T, int N, int M >
 constexpr colvec<T,N> operator*( matrix<T,N,M> const & A, colvec<T,N> const & x )
 {
+    static_assert( N == M, "operands must have matching dimensions" );
+
     colvec<T,N> result( 0 );
     for ( int row = 0; row < A.rows(); ++row )
     {
-- 
2.43.0


From ba35536f5c990c2f0b3288423098de353bac21e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:24 +0000
Subject: [PATCH 02/30] fix: do not write outside a matrix initialised from too
 many values

---
 include/num/matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/num/matrix.hpp b/include/num/matrix.hpp
index c36d560..1efda82 100644
--- a/include/num/matrix.hpp
+++ b/include/num/matrix.hpp
@@ -73,7 +73,8 @@ public:
     constexpr matrix( std::initializer_list<T> il )
     : storage()
     {
-        std20::copy( il.begin(), il.end(), begin() );
+        // elements beyond the size of the matrix are ignored:
+        std20::copy( il.begin(), static_cast<int>( il.size() ) < N * M ? il.end() : il.begin() + N * M, begin() );
     }
 
     // Observers:
-- 
2.43.0


From d8af8dbf538e521f8a5dad53a836ac15349ae725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 03/30] fix: give the Kalman gain a value before the first
 update

---
 include/dsp/kalman.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dsp/kalman.hpp b/include/dsp/kalman.hpp
index dc44dce..f6f34b5 100644
--- a/include/dsp/kalman.hpp
+++ b/include/dsp/kalman.hpp
@@ -63,6 +63,7 @@ public:
         , H( H_)
         , Q( Q_)
         , R( R_)
+        , K( 0 )
         , P( P_)
         , xhat( xhat_)
         , t(  0  )
-- 
2.43.0


From fe912482858a60fe710d13b32b736cdb568432b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:44 +0000
Subject: [PATCH 04/30] fix: scale a fixed-point value before narrowing it to
 the requested type

as<short>() of fixed_point<int,15>(42) gave 0: the underlying value was
narrowed to short before it was divided.
---
 include/num/fixed-point.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index 533bb8a..0050d51 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -129,7 +129,8 @@ public:
     template< typename U >
     constexpr auto as() const
     {
-        return static_cast<U>( underlying_value() ) / detail::power2(F);
+        // scale in the wider of the two types, narrow afterwards:
+        return static_cast<U>( static_cast<decltype( U{} + detail::power2(F) )>( underlying_value() ) / detail::power2(F) );
     }
 
     constexpr auto as_double() const
-- 
2.43.0


From 1b4449e954510f2d5f31ba9acfe75425943d05ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 05/30] fix: divide negative fixed-point values without
 shifting them

Left-shifting a negative value is undefined before C++20; a constant
expression such as fp32_t(-4) / fp32_t(2) was rejected by the compiler.
---
 include/num/fixed-point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index 0050d51..9ff0877 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -161,7 +161,7 @@ public:
 
     constexpr auto operator/=( fixed_point rhs )
     {
-        storage = static_cast<T>( (static_cast<detail::promote_t<T>>(storage) << F ) / rhs.storage );
+        storage = static_cast<T>( (static_cast<detail::promote_t<T>>(storage) * static_cast<detail::promote_t<T>>( detail::power2(F) )) / rhs.storage );
         return *this;
     }
 
-- 
2.43.0


From 68fc84438e39ed1f9486cdbcc5cdad2f963f433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 06/30] fix: unsigned types are not signed in the AVR
 numeric_limits

fixed_point accepted unsigned representations on AVR.
---
 include/std/limits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/std/limits.hpp b/include/std/limits.hpp
index 72065b2..0b7f5b0 100644
--- a/include/std/limits.hpp
+++ b/include/std/limits.hpp
@@ -57,7 +57,7 @@ class numeric_limits<__UINT8_TYPE__>
 {
     using T = __UINT8_TYPE__;
 public:
-    static constexpr bool is_signed  = true;
+    static constexpr bool is_signed  = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -83,7 +83,7 @@ class numeric_limits<__UINT16_TYPE__>
 {
     using T = __UINT16_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -109,7 +109,7 @@ class numeric_limits<__UINT32_TYPE__>
 {
     using T = __UINT32_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -135,7 +135,7 @@ class numeric_limits<__UINT64_TYPE__>
 {
     using T = __UINT64_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
-- 
2.43.0


From eabf0da75856b9eacc6fa7a7cce0b5cd60120a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 07/30] fix: terminate the conditional in std/tuple.hpp

The header could not be included at all.
---
 include/std/tuple.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/std/tuple.hpp b/include/std/tuple.hpp
index 23e958c..a72018d 100644
--- a/include/std/tuple.hpp
+++ b/include/std/tuple.hpp
@@ -33,4 +33,6 @@ struct ignore
 
 } // namespace std20
 
+#endif // __AVR
+
 #endif // STD_TUPLE_INCLUDED
-- 
2.43.0


From 553d0f981d4c9ef98b567ee9047651076d421f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 08/30] fix: include what core/text.hpp uses

---
 include/core/text.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/core/text.hpp b/include/core/text.hpp
index 4df0c6f..38f7d34 100644
--- a/include/core/text.hpp
+++ b/include/core/text.hpp
@@ -8,6 +8,8 @@
 #ifndef CORE_TEXT_HPP_INCLUDED
 #define CORE_TEXT_HPP_INCLUDED
 
+#include <string>
+
 namespace core {
 
 using Text = std::string;
-- 
2.43.0


From 73c2dd41e625ec6326a096829327e0f0716bac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:53 +0000
Subject: [PATCH 09/30] fix: break the circular include of the filter design
 headers

dsp/biquad-design.hpp could not be included first: filter-design.hpp
included filter.hpp, which uses biquad_design() before it is declared.
example/desktop/biquad-design.e.cpp did not compile.
---
 include/dsp/chebyshev-design.hpp | 1 +
 include/dsp/filter-design.hpp    | 4 +++-
 include/dsp/onepole-design.hpp   | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dsp/chebyshev-design.hpp b/include/dsp/chebyshev-design.hpp
index f24e5f3..8b6c700 100644
--- a/include/dsp/chebyshev-design.hpp
+++ b/include/dsp/chebyshev-design.hpp
@@ -13,6 +13,7 @@
 #define DSP_CHEBYSHEV_DESIGN_HPP_INCLUDED
 
 #include "dsp/biquad-cascade.hpp"
+#include "dsp/biquad-design.hpp"
 #include "dsp/filter-design.hpp"
 #include "core/core.hpp"
 
diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index 162b017..bc016e0 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -10,9 +10,11 @@
 
 #include "core/shims.hpp"
 #include "core/traits.hpp"
-#include "dsp/filter.hpp"
 #include "num/constants.hpp"
 
+#include <cmath>
+#include <type_traits>
+
 namespace dsp {
 
 // algorithm: pre-warp frequency:
diff --git a/include/dsp/onepole-design.hpp b/include/dsp/onepole-design.hpp
index b823e78..3c6c924 100644
--- a/include/dsp/onepole-design.hpp
+++ b/include/dsp/onepole-design.hpp
@@ -15,6 +15,7 @@
 #include <iostream>
 
 #include "dsp/onepole.hpp"
+#include "dsp/biquad-design.hpp"
 #include "dsp/filter-design.hpp"
 
 namespace dsp { namespace onepole_designs {
-- 
2.43.0


From 37a60a8b967c6c4f4a2bc60c71582d006b9926aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:56 +0000
Subject: [PATCH 10/30] fix: define the complex operations of the AVR shim

---
 include/std/complex.hpp | 108 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 96 insertions(+), 12 deletions(-)

diff --git a/include/std/complex.hpp b/include/std/complex.hpp
index f4ad926..140fbf7 100644
--- a/include/std/complex.hpp
+++ b/include/std/complex.hpp
@@ -21,6 +21,8 @@ using std::polar;
 
 #else // __AVR
 
+#include <math.h>
+
 namespace std20 {
 
 template< typename T >
@@ -46,12 +48,14 @@ public:
     {
         re_ = x;
         im_ = T();
+        return *this;
     }
 
     constexpr complex & operator=( complex const & cx )
     {
         re_ = cx.real();
         im_ = cx.imag();
+        return *this;
     }
 
     template<class X>
@@ -59,6 +63,7 @@ public:
     {
         re_ = cx.real();
         im_ = cx.imag();
+        return *this;
     }
 
     constexpr T real() const
@@ -81,22 +86,74 @@ public:
         im_ = value;
     }
 
-    constexpr complex & operator+=( T const & other );
-    constexpr complex & operator-=( T const & other );
-    constexpr complex & operator*=( T const & other );
-    constexpr complex & operator/=( T const & other );
+    constexpr complex & operator+=( T const & other )
+    {
+        re_ += other;
+        return *this;
+    }
+
+    constexpr complex & operator-=( T const & other )
+    {
+        re_ -= other;
+        return *this;
+    }
+
+    constexpr complex & operator*=( T const & other )
+    {
+        const T x = other;
+
+        re_ *= x;
+        im_ *= x;
+        return *this;
+    }
+
+    constexpr complex & operator/=( T const & other )
+    {
+        const T x = other;
+
+        re_ /= x;
+        im_ /= x;
+        return *this;
+    }
 
     template<class X>
-    constexpr complex& operator+=( complex<X> const & other);
+    constexpr complex& operator+=( complex<X> const & other)
+    {
+        re_ += other.real();
+        im_ += other.imag();
+        return *this;
+    }
 
     template<class X>
-    constexpr complex& operator-=( complex<X> const & other);
+    constexpr complex& operator-=( complex<X> const & other)
+    {
+        re_ -= other.real();
+        im_ -= other.imag();
+        return *this;
+    }
 
     template<class X>
-    constexpr complex& operator*=( complex<X> const & other);
+    constexpr complex& operator*=( complex<X> const & other)
+    {
+        const T re = re_ * other.real() - im_ * other.imag();
+        const T im = re_ * other.imag() + im_ * other.real();
+
+        re_ = re;
+        im_ = im;
+        return *this;
+    }
 
     template<class X>
-    constexpr complex& operator/=( complex<X> const & other);
+    constexpr complex& operator/=( complex<X> const & other)
+    {
+        const T n  = other.real() * other.real() + other.imag() * other.imag();
+        const T re = ( re_ * other.real() + im_ * other.imag() ) / n;
+        const T im = ( im_ * other.real() - re_ * other.imag() ) / n;
+
+        re_ = re;
+        im_ = im;
+        return *this;
+    }
 
 private:
     value_type re_;
@@ -106,10 +163,16 @@ private:
 // unary:
 
 template< class T >
-constexpr complex<T> operator+( T const & val );
+constexpr complex<T> operator+( complex<T> const & val )
+{
+    return val;
+}
 
 template< class T >
-constexpr complex<T> operator-( complex<T> const & val );
+constexpr complex<T> operator-( complex<T> const & val )
+{
+    return complex<T>( -val.real(), -val.imag() );
+}
 
 // binary:
 
@@ -186,10 +249,31 @@ constexpr complex<T> operator/( complex<T> const & lhs, complex<T> const & rhs)
 }
 
 template< class T >
-T abs( complex<T> const & z );
+T abs( complex<T> const & z )
+{
+    return hypot( z.real(), z.imag() );
+}
 
 template< class T >
-complex<T> sqrt( complex<T> const & z );
+complex<T> polar( T const & r, T const & theta = T() )
+{
+    return complex<T>( r * cos( theta ), r * sin( theta ) );
+}
+
+// principal square root:
+
+template< class T >
+complex<T> sqrt( complex<T> const & z )
+{
+    const T re = z.real() < 0 ? -z.real() : z.real();
+    const T im = z.imag() < 0 ? -z.imag() : z.imag();
+    const T t  = ::sqrt( ( abs( z ) + re ) / 2 );
+    const T u  = im > 0 ? im / ( 2 * t ) : T();
+
+    return z.real() < 0
+        ? complex<T>( u, z.imag() < 0 ? -t : t )
+        : complex<T>( t, z.imag() < 0 ? -u : u );
+}
 
 } // naespace std20
 
-- 
2.43.0


From 8c8d224fa5735c34157c3c9c3a3076bfd93706da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:56 +0000
Subject: [PATCH 11/30] fix: take half the dB value for a voltage ratio, not
 half the power ratio

---
 include/dsp/filter-design.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index bc016e0..6f4c972 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -58,7 +58,7 @@ auto dbV( T vout, U vin )
 template< typename T >
 auto dbV_factor( T dbv )
 {
-    return dbP_factor( dbv ) / T{2};
+    return dbP_factor( dbv / T{2} );
 }
 
 } // namespace dsp
-- 
2.43.0


From a36cccbedcf239f2ef3b6e3c94b9a20e8853e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:56 +0000
Subject: [PATCH 12/30] fix: biquad a-coefficients have no a0 to divide

---
 include/dsp/biquad.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/biquad.hpp b/include/dsp/biquad.hpp
index d14dc77..36434c9 100644
--- a/include/dsp/biquad.hpp
+++ b/include/dsp/biquad.hpp
@@ -94,7 +94,7 @@ auto solve( V a, V b, V c )
 template< typename V >
 auto operator/( AT<V> a, identity_t<V> x )
 {
-    return AT<V>{ a.a1 / x, a.a2 / x, a.a0 / x };
+    return AT<V>{ a.a1 / x, a.a2 / x };
 }
 
 // normalized b:
-- 
2.43.0


From b82fd779d1a151f6c6fc4a97cab98c370810f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:22 +0000
Subject: [PATCH 13/30] fix: Chebyshev type 1 design used the pole radius and
 gains of type 2

---
 include/dsp/chebyshev-design.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dsp/chebyshev-design.hpp b/include/dsp/chebyshev-design.hpp
index 8b6c700..cadbad5 100644
--- a/include/dsp/chebyshev-design.hpp
+++ b/include/dsp/chebyshev-design.hpp
@@ -117,7 +117,7 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
     const auto r     = N % 2;
     const auto K     = ( N - r ) / 2;
 
-    const auto a     = std::asinh( estop ) / N;
+    const auto a     = std::asinh( 1 / epass ) / N;
     const auto W3    = real( Wpass * std::cosh( std::acosh( complex_t{1} / complex_t{epass} ) / complex_t(N) ) );
     const auto f3    = (fs / num::pi<T> ) * std::atan( std::pow( W3, s ) );
     const auto W0    = std::sinh( a ) * Wpass;
@@ -129,18 +129,21 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
 
     if ( r == 1 )
     {
-        const auto G = 1 / (1 + W0);
+        const auto G = W0 / (1 + W0);
 
         A.emplace_back( /*1,*/ s * ( 2 * G - 1 ), T{0} );
         B.emplace_back(   G,   s * G            , T{0} );
     }
 
+    // even order: the response at zero frequency is at the bottom of the ripple:
+    const auto G0 = r == 1 ? T{1} : 1 / std::sqrt( 1 + epass * epass );
+
     for ( auto i : core::range( 1, K+1 ) )        // [1..K+1)
     {
         const auto th = num::pi<T> * (N - 1 + 2 * i) / (2 * N);
         const auto Wi = Wpass * sin(th);
         const auto D  =  1 - 2 * W0 * cos( th ) + W0 * W0 + Wi * Wi;
-        const auto G  = (W0 * W0 + Wi * Wi ) / D;
+        const auto G  = (i == 1 ? G0 : T{1}) * (W0 * W0 + Wi * Wi ) / D;
         const auto a1 =  2 * (W0 * W0 + Wi * Wi - 1) / D;
         const auto a2 = (1 + 2 * W0 * cos(th) + W0 * W0 + Wi * Wi) / D;
 
-- 
2.43.0


From f13c2e2e85051ef39a9aee2f6872e0a198ef7be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:22 +0000
Subject: [PATCH 14/30] fix: one-pole solve() yields the pole

---
 include/dsp/onepole.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index f7bd41c..4e5c84c 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -75,7 +75,7 @@ auto solve( V a, V b )
     // normalize:
     b /= a;
 
-    return Solution{ 7 };
+    return Solution{ -b };
 }
 
 // normalized a:
-- 
2.43.0


From ccc36277c2da7084fb468a898753db401dd15842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:22 +0000
Subject: [PATCH 15/30] fix: a one-pole filter with its pole outside the unit
 circle is not stable

---
 include/dsp/onepole.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index 4e5c84c..2422f27 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -205,11 +205,11 @@ public:
         return SolutionT<T>{};
     }
 
-    // stable if the magnitude of both poles is less or equal to leq unity:
+    // stable if the magnitude of the pole is less or equal to leq unity:
 
     auto is_stable() const
     {
-        return true;
+        return abs( poles().s0 ) <= value_type{1};
     }
 
     // Modifiers:
-- 
2.43.0


From e613b27f896e17368c3ef9be550fd868624310c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:22 +0000
Subject: [PATCH 16/30] fix: one-pole filter from zeros, poles and gain, and
 its coefficient operators do not compile

---
 include/dsp/onepole.hpp | 57 ++++++++++-------------------------------
 1 file changed, 13 insertions(+), 44 deletions(-)

diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index 2422f27..6bbf0a3 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -83,7 +83,7 @@ auto solve( V a, V b )
 template< typename V >
 auto operator/( AT<V> a, identity_t<V> x )
 {
-    return AT<V>{ a.a1 / x, a.a2 / x, a.a0 / x };
+    return AT<V>{ a.a1 / x };
 }
 
 // normalized b:
@@ -91,7 +91,7 @@ auto operator/( AT<V> a, identity_t<V> x )
 template< typename V >
 auto operator/( BT<V> b, identity_t<V> x )
 {
-    return BT<V>{ b.b0 / x, b.b1 / x, b.b2 / x };
+    return BT<V>{ b.b0 / x };
 }
 
 // enable assignment of result of to_coeff() to member data:
@@ -99,23 +99,23 @@ auto operator/( BT<V> b, identity_t<V> x )
 template< typename T >
 struct Tie
 {
-    Tie( T & a, T & b, T & c, T & d, T & e )
-    : b0(a), b1(b), b2(c), a1(d), a2(e)
+    Tie( T & b, T & a )
+    : b0(b), a1(a)
     {}
 
     void operator=( BAT<T> const & bat )
     {
-        b0 = bat.b0; b1 = bat.b1; b2 = bat.b2;
-                     a1 = bat.a1; a2 = bat.a2;
+        b0 = bat.b0;
+        a1 = bat.a1;
     }
 
-    T & b0; T & b1; T & b2; T & a1; T & a2;
+    T & b0; T & a1;
 };
 
 template< typename T >
-auto tie( T & a, T & b, T & c, T & d, T & e )
+auto tie( T & b, T & a )
 {
-    return Tie<T>( a, b, c, d, e );
+    return Tie<T>( b, a );
 }
 
 //
@@ -175,7 +175,7 @@ public:
 
     OnePoleT( Solution z, Solution p, value_type k )
     {
-        tie( b.b0, b.b1, b.b2, a.a1, a.a2 ) = to_coeff( z, p, k );
+        tie( b.b0, a.a1 ) = to_coeff( z, p, k );
     }
 
     // Observers:
@@ -236,42 +236,11 @@ public:
     }
 
 private:
-    template< typename U >
-    struct Pair{ U first; U second; };
+    // Convert zpk to a and b coefficients, the zero of a one-pole filter is at the origin:
 
-    // Convert zpk to a and b coefficients :
-
-    auto to_coeff( Solution z, Solution p, value_type k )
+    auto to_coeff( Solution, Solution p, value_type k )
     {
-        auto b = to_coeff( z );
-        auto a = to_coeff( p );
-
-        return BAT<value_type>
-        {
-            k, k * b.first, k * b.second
-            ,      a.first,     a.second
-        };
-    }
-
-    // Coefficients of quadratic poly. corresponding to zeros
-    //
-    // Gets the coefficients of the quadratic polynomial s.t. its solutions are p
-    //
-    // (x - z1)(x - z2) -> x^2 - (z1 + z2) + z1 * z2
-
-    auto to_coeff( Solution z )
-    {
-        auto z1 = z.s0;
-        auto z2 = z.s1;
-
-        auto z1r = z1.real();
-        auto z1i = z1.imag();
-        auto z2r = z2.real();
-
-        // Assume this is a complex conjugate pair if p1 has imag part
-        return z1i
-            ? Pair<value_type>{  -2 * z1r, z1r * z1r + z1i * z1i }
-            : Pair<value_type>{ -z1r -z2r, z1r * z2r             };
+        return BAT<value_type>{ { k }, { -p.s0.real() } };
     }
 
 private:
-- 
2.43.0


From 25b25960fac6efbeace989d352ef07e9e08335ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:56 +0000
Subject: [PATCH 17/30] fix: one-pole designs took the integer absolute value
 of a coefficient

---
 include/dsp/onepole-design.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/dsp/onepole-design.hpp b/include/dsp/onepole-design.hpp
index 3c6c924..b0cec22 100644
--- a/include/dsp/onepole-design.hpp
+++ b/include/dsp/onepole-design.hpp
@@ -12,12 +12,13 @@
 #ifndef DSP_ONEPOLE_DESIGN_HPP_INCLUDED
 #define DSP_ONEPOLE_DESIGN_HPP_INCLUDED
 
-#include <iostream>
-
 #include "dsp/onepole.hpp"
 #include "dsp/biquad-design.hpp"
 #include "dsp/filter-design.hpp"
 
+#include <cmath>
+#include <type_traits>
+
 namespace dsp { namespace onepole_designs {
 
 using core::identity_t;
@@ -76,8 +77,8 @@ struct onepole_design_method<FilterResponse::low_pass, T >
 {
     static auto design( T f, T fs )
     {
-        const auto a1 = -exp( -T{1} * num::pi<T> * f / fs );
-        const auto b0 = T{1} - abs(a1);
+        const auto a1 = -std::exp( -T{1} * num::pi<T> * f / fs );
+        const auto b0 = T{1} - std::abs(a1);
         
         return OnePoleCoeffT<T>{ {b0}, {a1} };
     }
@@ -90,8 +91,8 @@ struct onepole_design_method<FilterResponse::high_pass, T >
 {
     static auto design( T f, T fs )
     {
-        const auto a1 = +exp( -T{1} * num::pi<T> * (T{0.5} - f / fs ) );
-        const auto b0 = T{1} - abs(a1);
+        const auto a1 = +std::exp( -T{1} * num::pi<T> * (T{0.5} - f / fs ) );
+        const auto b0 = T{1} - std::abs(a1);
 
         return OnePoleCoeffT<T>{ {b0}, {a1} };
     }
-- 
2.43.0


From 6607991e9e857eb44645c8530916b606fccdb159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:56 +0000
Subject: [PATCH 18/30] fix: one-pole designs have their corner at the
 requested frequency, not at half of it

---
 include/dsp/onepole-design.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsp/onepole-design.hpp b/include/dsp/onepole-design.hpp
index b0cec22..d09f3ed 100644
--- a/include/dsp/onepole-design.hpp
+++ b/include/dsp/onepole-design.hpp
@@ -77,7 +77,7 @@ struct onepole_design_method<FilterResponse::low_pass, T >
 {
     static auto design( T f, T fs )
     {
-        const auto a1 = -std::exp( -T{1} * num::pi<T> * f / fs );
+        const auto a1 = -std::exp( -T{2} * num::pi<T> * f / fs );
         const auto b0 = T{1} - std::abs(a1);
         
         return OnePoleCoeffT<T>{ {b0}, {a1} };
@@ -91,7 +91,7 @@ struct onepole_design_method<FilterResponse::high_pass, T >
 {
     static auto design( T f, T fs )
     {
-        const auto a1 = +std::exp( -T{1} * num::pi<T> * (T{0.5} - f / fs ) );
+        const auto a1 = +std::exp( -T{2} * num::pi<T> * (T{0.5} - f / fs ) );
         const auto b0 = T{1} - std::abs(a1);
 
         return OnePoleCoeffT<T>{ {b0}, {a1} };
-- 
2.43.0


From 9a57ce6a56e4240c5252aa572360ace00546d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 19/30] fix: printing a one-pole filter claims that it is
 stable whatever its pole

---
 include/dsp/onepole-io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/onepole-io.hpp b/include/dsp/onepole-io.hpp
index 96ee1fd..c0dafd9 100644
--- a/include/dsp/onepole-io.hpp
+++ b/include/dsp/onepole-io.hpp
@@ -48,7 +48,7 @@ template< typename T, typename S >
 std::ostream & operator<<( std::ostream & os, OnePoleT<T,S> const & bq )
 {
     return os <<
-        "\nOnePole is always stable" <<
+        "\nOnePole is " << ( bq.is_stable() ? "stable:":"NOT stable:" ) <<
         "\na: " << bq.coeff_a() <<
         "\nb: " << bq.coeff_b() <<
         "\nw: " << bq.state() <<
-- 
2.43.0


From 314e233f61e84be41e1905054fb5fe2a2b43b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:29 +0000
Subject: [PATCH 20/30] fix: a lazy write does not reach outside its field

---
 include/mcu/register.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/register.hpp b/include/mcu/register.hpp
index 48f5671..50bcff8 100644
--- a/include/mcu/register.hpp
+++ b/include/mcu/register.hpp
@@ -444,7 +444,7 @@ public:
 
     static auto write_lazy( value_type value )
     {
-        return write_proxy< T, io, address, rngmask<T>(hi,lo), 0 >{ shl(value, lo) };
+        return write_proxy< T, io, address, rngmask<T>(hi,lo), 0 >{ static_cast<T>( shl(value, lo) & rngmask<T>(hi,lo) ) };
     }
 
     // Set a single bit:
-- 
2.43.0


From d7a6870ee66f9e5519e497f5589b5505e7602ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:29 +0000
Subject: [PATCH 21/30] fix: clearing an interrupt flag leaves other pending
 flags alone, and clears a pin change flag

---
 include/mcu/atmega328.hpp | 18 +++++++++---------
 include/mcu/register.hpp  | 19 +++++++++++++++++++
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 9faf03d..1a9143e 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -516,7 +516,7 @@ namespace ei
     // 17.2.3 EIFR: External Interrupt Flag Register
 
     template< eint i >
-    using eifr = bitfield8_t< rc_w1_t, eifr_addr, to_integral(i) >;
+    using eifr = bitfield8_t< rc_w1_flag_t, eifr_addr, to_integral(i) >;
 
     inline auto external_int0_flag()
     {
@@ -576,7 +576,7 @@ namespace ei
     // 17.2.5 PCIFR: Pin Change Interrupt Flag Register
 
     template< pcint i >
-    using pcifr = bitfield8_t< rw_t, pcifr_addr, to_integral(i) >;
+    using pcifr = bitfield8_t< rc_w1_flag_t, pcifr_addr, to_integral(i) >;
 
     inline auto pin_change_int2_flag()
     {
@@ -798,9 +798,9 @@ namespace tc0
         namespace tifr0
         {
             using whole = register8_t< rw_t, tifr0_addr >;
-            using ocf0b = bitfield8_t< rc_w1_t, tifr0_addr, OCF0B >;
-            using ocf0a = bitfield8_t< rc_w1_t, tifr0_addr, OCF0A >;
-            using tov0  = bitfield8_t< rc_w1_t, tifr0_addr, TOV0  >;
+            using ocf0b = bitfield8_t< rc_w1_flag_t, tifr0_addr, OCF0B >;
+            using ocf0a = bitfield8_t< rc_w1_flag_t, tifr0_addr, OCF0A >;
+            using tov0  = bitfield8_t< rc_w1_flag_t, tifr0_addr, TOV0  >;
 
             using value_type = whole::value_type;
         }
@@ -1199,10 +1199,10 @@ namespace tc1
         namespace tifr1
         {
             using whole = register8_t< rc_w1_t, tifr1_addr >;
-            using icf1  = bitfield8_t< rc_w1_t, tifr1_addr, ICF1  >;
-            using ocf1b = bitfield8_t< rc_w1_t, tifr1_addr, OCF1B >;
-            using ocf1a = bitfield8_t< rc_w1_t, tifr1_addr, OCF1A >;
-            using tov1  = bitfield8_t< rc_w1_t, tifr1_addr, TOV1  >;
+            using icf1  = bitfield8_t< rc_w1_flag_t, tifr1_addr, ICF1  >;
+            using ocf1b = bitfield8_t< rc_w1_flag_t, tifr1_addr, OCF1B >;
+            using ocf1a = bitfield8_t< rc_w1_flag_t, tifr1_addr, OCF1A >;
+            using tov1  = bitfield8_t< rc_w1_flag_t, tifr1_addr, TOV1  >;
 
             using value_type = whole::value_type;
         }
diff --git a/include/mcu/register.hpp b/include/mcu/register.hpp
index 50bcff8..d5814e3 100644
--- a/include/mcu/register.hpp
+++ b/include/mcu/register.hpp
@@ -208,6 +208,17 @@ struct clearbit_w1_t
     }
 };
 
+// Clear bit by write 1, leave other flags in the register alone:
+
+template< typename T >
+struct clearflag_w1_t
+{
+    static void clear( address_t address, index_t bit )
+    {
+        *to_pointer<T>(address) = bitmask<T>( bit );
+    }
+};
+
 // Clear bit by write 0:
 
 template< typename T >
@@ -284,6 +295,14 @@ struct rc_w1_t : detail::getbit_t<T>, detail::clearbit_w1_t<T>
     static constexpr Mutability mutability = Mutability::rc_w1;
 };
 
+// Read bit, clear bit by write 1, for registers that only contain such flags:
+
+template< typename T >
+struct rc_w1_flag_t : detail::getbit_t<T>, detail::clearflag_w1_t<T>
+{
+    static constexpr Mutability mutability = Mutability::rc_w1;
+};
+
 // Read bit, clear bit by write 0:
 
 template< typename T >
-- 
2.43.0


From 7d10d6b6ddb3a353daa54f60640fc0829d8e8f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:29 +0000
Subject: [PATCH 22/30] fix: the timer 1 force output compare bits are in
 TCCR1C

---
 include/mcu/atmega328.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 1a9143e..46870e8 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1131,8 +1131,8 @@ namespace tc1
         namespace tccr1c
         {
             using whole = register8_t< rw_t, tccr1c_addr >;
-            using foc1a = bitfield8_t< rw_t, tccr1a_addr, FOC1A >;
-            using foc1b = bitfield8_t< rw_t, tccr1a_addr, FOC1B >;
+            using foc1a = bitfield8_t< rw_t, tccr1c_addr, FOC1A >;
+            using foc1b = bitfield8_t< rw_t, tccr1c_addr, FOC1B >;
 
             using value_type = whole::value_type;
         }
-- 
2.43.0


From 47e518d3229929da1af6635a840f24f405b9dafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:29 +0000
Subject: [PATCH 23/30] fix: read back the waveform of timers 0 and 1 as it was
 set

---
 include/mcu/atmega328.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 46870e8..f2a6d35 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -899,7 +899,7 @@ namespace tc0
 
         inline auto current( waveform w )
         {
-            return waveform( shl(reg::tccr0b::wgm02::read(), WGM02) + reg::tccr0a::wgm0::read() );
+            return waveform( shl(reg::tccr0b::wgm02::read(), 2) + reg::tccr0a::wgm0::read() );
         }
 
         inline auto set( waveform w )
@@ -1324,7 +1324,7 @@ namespace tc1
 
         inline auto current( waveform )
         {
-            return waveform( shl(reg::tccr1b::wgm1::read(), WGM12) + reg::tccr1a::wgm1::read() );
+            return waveform( shl(reg::tccr1b::wgm1::read(), 2) + reg::tccr1a::wgm1::read() );
         }
 
         inline auto set( waveform w )
-- 
2.43.0


From ec4c637a8735efe8e141a7643cd2035821f8937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:29 +0000
Subject: [PATCH 24/30] fix: return the compare value that was read

---
 include/mcu/atmega328.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index f2a6d35..823ad92 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -955,7 +955,7 @@ namespace tc0
 
             inline auto current( a )
             {
-                a{ reg::ocr0a::whole::read() };
+                return a{ reg::ocr0a::whole::read() };
             }
 
             inline auto set( a v )
@@ -965,7 +965,7 @@ namespace tc0
 
             inline auto current( b )
             {
-                b{ reg::ocr0b::whole::read() };
+                return b{ reg::ocr0b::whole::read() };
             }
 
             inline auto set( b v )
@@ -1380,7 +1380,7 @@ namespace tc1
 
             inline auto current( a )
             {
-                a{ reg::ocr1a::whole::read() };
+                return a{ reg::ocr1a::whole::read() };
             }
 
             inline auto set( a v )
@@ -1390,7 +1390,7 @@ namespace tc1
 
             inline auto current( b )
             {
-                b{ reg::ocr1b::whole::read() };
+                return b{ reg::ocr1b::whole::read() };
             }
 
             inline auto set( b v )
-- 
2.43.0


From 6d5e81626c084501ff9e3efdfbbf80bb755ca274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:29 +0000
Subject: [PATCH 25/30] fix: twi write sends the data byte, not the address
 again

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 823ad92..747f265 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -2079,7 +2079,7 @@ namespace twi
                 if ( expect_status( 0x18 ) )
                     return true;  // error
 
-                data( address );
+                data( byte );
 
                 if ( expect_status( 0x28 ) )
                     return true;  // error
-- 
2.43.0


From 9db57ae0702dcf0d05a024d54de4c8b2de056ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:29 +0000
Subject: [PATCH 26/30] fix: twi pull-ups are enabled by the port, writing the
 input register toggles pins

---
 include/mcu/atmega328.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 747f265..d6c3933 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1981,8 +1981,8 @@ namespace twi
                 set( twi::enable::interface::on );
 
                 // enable internal pull-up resistors for sda, scl:
-                gpio<config::twi_port>::p<config::sda_pin>::inp::set();
-                gpio<config::twi_port>::p<config::scl_pin>::inp::set();
+                gpio<config::twi_port>::p<config::sda_pin>::out::set();
+                gpio<config::twi_port>::p<config::scl_pin>::out::set();
             }
 
             inline auto flag()   { return current( twi::interrupt::flag{} ); }
@@ -2015,8 +2015,8 @@ namespace twi
                 , twi::control::prescale::factor ps = twi::control::prescale::factor::x1 )
             {
                 // enable internal pull-up resistors for sda, scl:
-                gpio<config::twi_port>::p<config::sda_pin>::inp::set();
-                gpio<config::twi_port>::p<config::scl_pin>::inp::set();
+                gpio<config::twi_port>::p<config::sda_pin>::out::set();
+                gpio<config::twi_port>::p<config::scl_pin>::out::set();
 
                 //set SCL to 400kHz
                 TWSR = 0x00;
-- 
2.43.0


From e124360bfe913154d02790cadecd7593aa6d61c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:29 +0000
Subject: [PATCH 27/30] fix: twi init sets the requested prescale factor

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index d6c3933..914a9be 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -2019,7 +2019,7 @@ namespace twi
                 gpio<config::twi_port>::p<config::scl_pin>::out::set();
 
                 //set SCL to 400kHz
-                TWSR = 0x00;
+                TWSR = to_integral( ps );
                 TWBR = to_integral( br );
                 //enable TWI
                 TWCR = (1<<TWEN);
-- 
2.43.0


From 67fce86f3c6d393188064facad1860aebe5357d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 28/30] fix: dB conversions of integers, or of values of
 different types, do not truncate

---
 include/dsp/filter-design.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index 6f4c972..aa062da 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -29,12 +29,12 @@ inline auto prewarp( P f, Q fs )
 
 // factor as dbP
 
-template< typename T >
-auto dbP( T vout, core::identity_t<T> vin )
+template< typename T, typename U >
+auto dbP( T vout, U vin )
 {
-    using U = std::common_type_t<float, T>;
+    using V = std::common_type_t<float, T, U>;
 
-    return U{10} * std::log10( core::as<U>(vout) / vin );
+    return V{10} * std::log10( core::as<V>(vout) / core::as<V>(vin) );
 }
 
 // dbP as factor
@@ -42,7 +42,9 @@ auto dbP( T vout, core::identity_t<T> vin )
 template< typename T >
 auto dbP_factor( T dbv )
 {
-    return std::pow( T{10}, std::abs( dbv ) / T{10} );
+    using U = std::common_type_t<float, T>;
+
+    return std::pow( U{10}, std::abs( core::as<U>(dbv) ) / U{10} );
 }
 
 // factor as dbV
@@ -50,7 +52,7 @@ auto dbP_factor( T dbv )
 template< typename T, typename U >
 auto dbV( T vout, U vin )
 {
-    return T{2} * dbP( vout, vin );
+    return 2 * dbP( vout, vin );
 }
 
 // dbV as factor
@@ -58,7 +60,9 @@ auto dbV( T vout, U vin )
 template< typename T >
 auto dbV_factor( T dbv )
 {
-    return dbP_factor( dbv / T{2} );
+    using U = std::common_type_t<float, T>;
+
+    return dbP_factor( core::as<U>(dbv) / U{2} );
 }
 
 } // namespace dsp
-- 
2.43.0


From 03f034cc9b85718dc68dba251091fceec77e9628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:33 +0000
Subject: [PATCH 29/30] fix: exchange elements by std20::swap itself, also
 where std::swap is found by argument

The unqualified call is ambiguous for types from namespace std, so that a
bi-quad, one-pole filter, cascade replacement or 2x2 transposition with
std::complex elements did not compile.
---
 include/dsp/biquad.hpp  | 8 +++-----
 include/dsp/onepole.hpp | 8 +++-----
 include/num/matrix.hpp  | 2 +-
 3 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/include/dsp/biquad.hpp b/include/dsp/biquad.hpp
index 36434c9..778c2b8 100644
--- a/include/dsp/biquad.hpp
+++ b/include/dsp/biquad.hpp
@@ -269,11 +269,9 @@ public:
 
     void swap( BiQuadT & other )
     {
-        using std20::swap;
-
-        swap( a, other.a );
-        swap( b, other.b );
-        swap( w, other.w );
+        std20::swap( a, other.a );
+        std20::swap( b, other.b );
+        std20::swap( w, other.w );
     }
 
 private:
diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index 6bbf0a3..ff547eb 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -228,11 +228,9 @@ public:
 
     void swap( OnePoleT & other )
     {
-        using std20::swap;
-
-        swap( a, other.a );
-        swap( b, other.b );
-        swap( w, other.w );
+        std20::swap( a, other.a );
+        std20::swap( b, other.b );
+        std20::swap( w, other.w );
     }
 
 private:
diff --git a/include/num/matrix.hpp b/include/num/matrix.hpp
index 1efda82..e88f5f8 100644
--- a/include/num/matrix.hpp
+++ b/include/num/matrix.hpp
@@ -478,7 +478,7 @@ constexpr matrix<T,2,2> transposed( matrix<T,2,2> const & A )
 {
     matrix<T,2,2> result( A );
 
-    using std20::swap; swap( result(0,1), result(1,0) );
+    std20::swap( result(0,1), result(1,0) );
 
     return result;
 }
-- 
2.43.0


From d7f3cd25b1d7c62ca8b3ae2584f6ef51c17f222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:50 +0000
Subject: [PATCH 30/30] fix: std20::ignore is an object that can be assigned to
 on AVR too

---
 include/std/tuple.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/std/tuple.hpp b/include/std/tuple.hpp
index a72018d..d3103fa 100644
--- a/include/std/tuple.hpp
+++ b/include/std/tuple.hpp
@@ -25,12 +25,14 @@ namespace std20 {
 
 // (std::) ignore for structured bindings:
 
-struct ignore
+struct ignore_t
 {
     template< typename T >
-    ignore & operator=(T const &) { return *this; }
+    constexpr ignore_t const & operator=(T const &) const { return *this; }
 };
 
+inline constexpr ignore_t ignore{};
+
 } // namespace std20
 
 #endif // __AVR
-- 
2.43.0

