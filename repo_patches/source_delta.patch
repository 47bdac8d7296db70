From 34f82765e01aa8c588f675a0b557d2396e583d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 01/42] fix: Vector::cross( a, b ) when the destination is one
 of the operands

---
 vmmlib/vector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 4adc2de..ff11660 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1109,9 +1109,13 @@ void Vector< M, T >::cross( const Vector< M, TT >& aa,
                             const Vector< M, TT >& bb,
                             typename enable_if< M == 3, TT >::type* )
 {
-    array[ 0 ] = aa.y() * bb.z() - aa.z() * bb.y();
-    array[ 1 ] = aa.z() * bb.x() - aa.x() * bb.z();
-    array[ 2 ] = aa.x() * bb.y() - aa.y() * bb.x();
+    // this may be aa or bb: do not write before everything has been read
+    const T x_ = aa.y() * bb.z() - aa.z() * bb.y();
+    const T y_ = aa.z() * bb.x() - aa.x() * bb.z();
+    const T z_ = aa.x() * bb.y() - aa.y() * bb.x();
+    array[ 0 ] = x_;
+    array[ 1 ] = y_;
+    array[ 2 ] = z_;
 }
 
 
-- 
2.43.0


From c5876e2cd013c058056015757e56cb992ae2a307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 02/42] fix: reverse iterators of Vector and Matrix (did not
 compile, were off by one)

---
 vmmlib/matrix.hpp | 8 ++++----
 vmmlib/vector.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 99c3069..467c44d 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2182,7 +2182,7 @@ typename Matrix< M, N, T >::reverse_iterator
 Matrix< M, N, T >::
 rbegin()
 {
-    return array + size() - 1;
+    return reverse_iterator( end() );
 }
 
 
@@ -2192,7 +2192,7 @@ typename Matrix< M, N, T >::reverse_iterator
 Matrix< M, N, T >::
 rend()
 {
-    return array - 1;
+    return reverse_iterator( begin() );
 }
 
 
@@ -2202,7 +2202,7 @@ typename Matrix< M, N, T >::const_reverse_iterator
 Matrix< M, N, T >::
 rbegin() const
 {
-    return array + size() - 1;
+    return const_reverse_iterator( end() );
 }
 
 
@@ -2212,7 +2212,7 @@ typename Matrix< M, N, T >::const_reverse_iterator
 Matrix< M, N, T >::
 rend() const
 {
-    return array - 1;
+    return const_reverse_iterator( begin() );
 }
 
 
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index ff11660..a20e78c 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1578,7 +1578,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::reverse_iterator
 Vector< M, T >::rbegin()
 {
-    return array + M - 1;
+    return reverse_iterator( end() );
 }
 
 
@@ -1586,7 +1586,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::reverse_iterator
 Vector< M, T >::rend()
 {
-    return array - 1;
+    return reverse_iterator( begin() );
 }
 
 
@@ -1594,7 +1594,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::const_reverse_iterator
 Vector< M, T >::rbegin() const
 {
-    return array + M - 1;
+    return const_reverse_iterator( end() );
 }
 
 
@@ -1602,7 +1602,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::const_reverse_iterator
 Vector< M, T >::rend() const
 {
-    return array - 1;
+    return const_reverse_iterator( begin() );
 }
 
 
-- 
2.43.0


From 1fe3d03b6b90e6f668ba807b25a5ac0bebc8b769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 03/42] fix: Vector::find_abs_max_index returned the index of
 the smallest magnitude

---
 vmmlib/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index a20e78c..1d6cb92 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1501,7 +1501,7 @@ template< size_t M, typename T >
 size_t
 Vector< M, T >::find_abs_max_index() const
 {
-    return std::max_element( begin(), end(), vmml::math::abs_greater< T >() ) - begin();
+    return std::max_element( begin(), end(), vmml::math::abs_less< T >() ) - begin();
 }
 
 
-- 
2.43.0


From 10116482b4ac08aba325c8653cbc27328425f909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 04/42] fix: Vector::equals held for NaN and depended on the
 order of unsigned operands

---
 vmmlib/vector.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 1d6cb92..568a90a 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1328,8 +1328,13 @@ bool
 Vector< M, T >::equals( const Vector< M, T >& other, T tolerance ) const
 {
     for( size_t index = 0; index < M; ++index )
-        if( fabs( at( index ) - other( index ) ) >= tolerance )
+    {
+        const T& lhs = at( index );
+        const T& rhs = other( index );
+        const T difference = lhs < rhs ? rhs - lhs : lhs - rhs;
+        if( !( difference < tolerance ))
             return false;
+    }
     return true;
 
 }
-- 
2.43.0


From d2cadb576e5c9b1dfc0c616581c69ec922b07fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 05/42] fix: Matrix::equals depended on the order of unsigned
 operands

---
 vmmlib/matrix.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 467c44d..f2e5b5d 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -935,7 +935,10 @@ equals( const Matrix< M, N, T >& other, T tolerance ) const
     {
         for( size_t col_index = 0; is_ok && col_index < N; col_index++)
         {
-            is_ok = fabs( at( row_index, col_index ) - other( row_index, col_index ) ) < tolerance;
+            const T& lhs = at( row_index, col_index );
+            const T& rhs = other( row_index, col_index );
+            const T difference = lhs < rhs ? rhs - lhs : lhs - rhs;
+            is_ok = difference < tolerance;
         }
     }
     return is_ok;
-- 
2.43.0


From fb0f35a32592b2c091167958022875af30b000bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 06/42] fix: compute_plane normalised the normal together with
 a fourth component of 1

---
 vmmlib/vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 568a90a..9dedfef 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -484,8 +484,10 @@ inline Vector< 4, T > compute_plane( const Vector< 3, T >& a,
     const Vector< 3, T > cb = b - c;
     const Vector< 3, T > ba = a - b;
 
-    Vector< 4, T > plane = cb.cross( ba );
-    plane.normalize();
+    Vector< 3, T > normal = cb.cross( ba );
+    normal.normalize();
+
+    Vector< 4, T > plane( normal, T( 0 ));
     plane.w() = -plane.x() * a.x() - plane.y() * a.y() - plane.z() * a.z();
     return plane;
 }
-- 
2.43.0


From dffa8badba5d56761a7316abd7d2a56df951f129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 07/42] fix: restore the stream flags after printing (setf()
 cannot clear any)

---
 vmmlib/frustum.hpp | 2 +-
 vmmlib/matrix.hpp  | 2 +-
 vmmlib/vector.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmmlib/frustum.hpp b/vmmlib/frustum.hpp
index 76088dc..48bc493 100644
--- a/vmmlib/frustum.hpp
+++ b/vmmlib/frustum.hpp
@@ -116,7 +116,7 @@ public:
            << std::setw(10) << f.near_plane()   << " "
            << std::setw(10) << f.far_plane()    << "]";
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     };
 
diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index f2e5b5d..c36cb61 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -470,7 +470,7 @@ public:
             os << "|" << std::endl;
         }
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     };
 
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 9dedfef..733cf5c 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -348,7 +348,7 @@ public:
             os << std::setw(10) << vector_.at( index ) << " ";
         os << "]";
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     }
 
-- 
2.43.0


From 92f0c0c4d164a947d3c964a1f4544b35514e8c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 08/42] fix: Matrix::negate and unary minus ignored the matrix

---
 vmmlib/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index c36cb61..549407c 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1220,8 +1220,8 @@ template< size_t M, size_t N, typename T >
 Matrix< M, N, T >
 Matrix< M, N, T >::negate() const
 {
-    Matrix< M, N, T > result;
-    result *= -1.0;
+    Matrix< M, N, T > result( *this );
+    result *= static_cast< T >( -1 );
     return result;
 }
 
-- 
2.43.0


From 559037ddc4c4e0efa257d334b7c0d4612113ce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 09/42] fix: Matrix::get_max of a matrix with negative elements
 only

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 549407c..cfbbbab 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2356,7 +2356,7 @@ template< size_t M, size_t N, typename T  >
 T
 Matrix< M, N, T >::get_max() const
 {
-    T max_value = static_cast<T>(0);
+    T max_value = *begin();
 
     const_iterator  it = begin(),
     it_end = end();
-- 
2.43.0


From fb72516fd03f7580e04345081f921d80e9fe752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 10/42] fix: Matrix::operator*= with the matrix itself as
 operand

---
 vmmlib/matrix.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index cfbbbab..6467492 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1085,8 +1085,7 @@ template< size_t O, size_t P, typename TT >
 typename enable_if< M == N && O == P && M == O, TT >::type*
 Matrix< M, N, T >::operator*=( const Matrix< O, P, TT >& right )
 {
-    Matrix< M, N, T > copy( *this );
-    multiply( copy, right );
+    *this = *this * right;
     return 0;
 }
 
-- 
2.43.0


From 124dc6f5187c87afc6273587433929632a4fb1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 11/42] fix: Matrix::operator[] accepted the row index M in
 checked builds

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 6467492..0161fbb 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -439,7 +439,7 @@ public:
     inline row_accessor operator[]( size_t row_index )
     {
         #ifdef VMMLIB_SAFE_ACCESSORS
-        if ( row_index > M )
+        if ( row_index >= M )
             VMMLIB_ERROR( "row index out of bounds", VMMLIB_HERE );
         #endif
         return row_accessor( array + row_index );
-- 
2.43.0


From 297f58321bc5e5a9f21214e1882dbf6555dc5ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 12/42] fix: column-major Matrix::set read beyond the end of
 short ranges

---
 vmmlib/matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 0161fbb..23981c5 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1506,7 +1506,8 @@ void Matrix< M, N, T >::set( input_iterator_t begin_,
     }
     else
     {
-        std::copy( it, it + ( M * N ), begin() );
+        for( iterator out = begin(); out != end() && it != end_; ++out, ++it )
+            *out = static_cast< T >( *it );
     }
 }
 
-- 
2.43.0


From 66df2c7a4120c7a4aaadf03d9804102c65fde213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 13/42] fix: Matrix::convolve for non-square matrices and
 kernels

---
 vmmlib/matrix.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 23981c5..323c57f 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -529,27 +529,27 @@ void Matrix< M, N, T>::convolve(const Matrix< U, V, T >& kernel)
 {
     Matrix< M, N, T> temp;  // do not override original values instantly as old values are needed for calculation
 
-    for(size_t y_ = 0; y_ < N; ++y_)
+    for(size_t y_ = 0; y_ < M; ++y_)
     {
-        for(size_t x_ = 0; x_ < M; ++x_)
+        for(size_t x_ = 0; x_ < N; ++x_)
         {
             double sum = 0.0;
 
-            for(size_t j = 0; j < V; ++j)
+            for(size_t j = 0; j < U; ++j)
             {
-                int srcy = y_ - V/2 + j;
+                int srcy = y_ - U/2 + j;
 
                 // Extending border values
                 if(srcy < 0)       srcy = 0;
-                if(srcy >= int(N)) srcy = N-1;
+                if(srcy >= int(M)) srcy = M-1;
 
-                for(size_t i = 0; i < U; ++i)
+                for(size_t i = 0; i < V; ++i)
                 {
-                    int srcx = x_ - U/2 + i;
+                    int srcx = x_ - V/2 + i;
 
                     // Extending border values
                     if(srcx < 0)       srcx = 0;
-                    if(srcx >= int(M)) srcx = M-1;
+                    if(srcx >= int(N)) srcx = N-1;
 
                     sum += kernel.at(j,i) * at(srcy,srcx);
                 }
-- 
2.43.0


From 3a30db490edae7eb6c0d5164393586820abdf2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 14/42] fix: 2x2 inverse of a singular matrix with tolerance 0
 (as 3x3 and 4x4)

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 323c57f..edba18f 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -667,7 +667,7 @@ bool compute_inverse( const Matrix< 2, 2, T >& m_, Matrix< 2, 2, T >& inverse_,
                       T tolerance_ = std::numeric_limits<T>::epsilon())
 {
     const T det_ = compute_determinant( m_ );
-    if( fabs( det_ ) < tolerance_ )
+    if( fabs( det_ ) <= tolerance_ )
         return false;
 
     const T detinv = static_cast< T >( 1.0 ) / det_;
-- 
2.43.0


From 4153a3b7919c9cab7b76a032fc977c32ddc75204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 15/42] fix: Matrix::p_norm of negative elements

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index edba18f..6ea49a2 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2271,7 +2271,7 @@ Matrix< M, N, T >::p_norm( double p ) const
     const_iterator it = begin(), it_end = end();
     for( ; it != it_end; ++it )
     {
-        norm += std::pow(*it, p);
+        norm += std::pow( fabs( *it ), p );
     }
 
     return std::pow(norm,1./p);
-- 
2.43.0


From f4da86c3da1046f6a1db741b540c558c7fdaff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 16/42] fix: Matrix::read_from_raw used bytes it had not read
 from a short file

---
 vmmlib/matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 6ea49a2..3a0d40b 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2666,9 +2666,10 @@ Matrix< M, N, T >::read_from_raw( const std::string& dir_, const std::string& fi
                                         len_data % max_file_len : len_data;
             len_data -= len_read;
             infile.read( data, len_read );
+            len_read = infile.gcount();
 
             T* T_ptr = (T*)&(data[0]);
-            for( ; (it != it_end) && (len_read > 0); ++it, len_read -= sizeof(T) )
+            for( ; (it != it_end) && (len_read >= sizeof(T)); ++it, len_read -= sizeof(T) )
             {
                 *it = *T_ptr; ++T_ptr;
             }
-- 
2.43.0


From 75245ca4f9a3db4437581e858cc0443a0c0173e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 17/42] fix: is_positive_definite did not compile for 1x1 and
 2x2 matrices

---
 vmmlib/matrix.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 3a0d40b..2858100 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -803,16 +803,14 @@ bool is_positive_definite( const Matrix< M, N, T >& matrix_,
     // sylvester criterion
     if ( M > 1 )
     {
-        Matrix< 2, 2, T > m;
-        matrix_.get_sub_matrix( m, 0, 0 );
+        const Matrix< 2, 2, T > m( matrix_ );
         if ( compute_determinant( m ) < limit )
             return false;
     }
 
     if ( M > 2 )
     {
-        Matrix< 3, 3, T > m;
-        matrix_.get_sub_matrix( m, 0, 0 );
+        const Matrix< 3, 3, T > m( matrix_ );
         if ( compute_determinant( m ) < limit )
             return false;
     }
-- 
2.43.0


From 608bfb60cd1fe78918756b4d3b5537e0ac46214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 18/42] fix: Matrix::tensor read beyond the vectors of a
 non-square matrix

---
 vmmlib/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 2858100..81e5ec9 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -165,7 +165,7 @@ public:
     Matrix< M, N, T > negate() const;
 
     // compute tensor product: (this) = vector (X) vector
-    void tensor( const Vector< M, T >& u, const Vector< N, T >& v );
+    void tensor( const Vector< N, T >& u, const Vector< M, T >& v );
     // tensor, for api compatibility with old vmmlib version.
     // WARNING: for M = N = 4 only.
     template< size_t uM, size_t vM >
@@ -1226,7 +1226,7 @@ Matrix< M, N, T >::negate() const
 
 template< size_t M, size_t N, typename T >
 void
-Matrix< M, N, T >::tensor( const Vector< M, T >& u, const Vector< N, T >& v )
+Matrix< M, N, T >::tensor( const Vector< N, T >& u, const Vector< M, T >& v )
 {
     for ( size_t col_index = 0; col_index < N; ++col_index )
         for ( size_t row_index = 0; row_index < M; ++row_index )
-- 
2.43.0


From 3b2fc1c013c4594b41ddef906919a01120756c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 19/42] fix: Quaternion from a half turn matrix had the sign of
 w wrong for two of three axes

---
 vmmlib/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 9f04892..5b7ee1c 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -308,7 +308,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
             z() = M( 0,2 ) + M( 2,0 );
             z() *= s;
 
-            w() = M( 1,2 ) - M( 2,1 );
+            w() = M( 2,1 ) - M( 1,2 );
             w() *= s;
         }
         else if ( largest == 1 )
@@ -337,7 +337,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
 
             z() = 0.25 / s;
 
-            w() = M( 0,1 ) - M( 1,0 );
+            w() = M( 1,0 ) - M( 0,1 );
             w() *= s;
         }
         else
-- 
2.43.0


From dfcc75e45f2b23f4b0e6450e61bb16713cba28d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 20/42] fix: Quaternion +=, - and * with a vector mixed up
 components

---
 vmmlib/quaternion.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 5b7ee1c..619bdf7 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -719,7 +719,7 @@ template < typename T >
 Quaternion< T >
 Quaternion< T >::operator-( const Vector< 3, T >& a ) const
 {
-    return Quaternion( w(), x() - a.x(), y() - a.y(), z() - a.z() );
+    return Quaternion( x() - a.x(), y() - a.y(), z() - a.z(), w() );
 }
 
 
@@ -728,10 +728,10 @@ template < typename T >
 Quaternion< T >
 Quaternion< T >::operator*( const Vector< 3, T >& a ) const
 {
-    return Quaternion( -x() * a.x() - y() * a.y() - z() * a.z(),
-                        w() * a.x() + y() * a.z() - z() * a.y(),
+    return Quaternion(  w() * a.x() + y() * a.z() - z() * a.y(),
                         w() * a.y() + z() * a.x() - x() * a.z(),
-                        w() * a.z() + x() * a.y() - y() * a.x()  );
+                        w() * a.z() + x() * a.y() - y() * a.x(),
+                       -x() * a.x() - y() * a.y() - z() * a.z() );
 }
 
 
@@ -741,7 +741,7 @@ void Quaternion< T >::operator+=( const Vector< 3, T >& xyz )
 {
     x() += xyz.x();
     y() += xyz.y();
-    y() += xyz.z();
+    z() += xyz.z();
 }
 
 
-- 
2.43.0


From 7c69c2d5a6b5675769781bd31735ea67448b8c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 21/42] fix: Quaternion::set from iterators did not compile

---
 vmmlib/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 619bdf7..509997d 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -392,7 +392,7 @@ template < typename T >
 template< typename input_iterator_t >
 void Quaternion< T >::set( input_iterator_t begin_, input_iterator_t end_ )
 {
-    super::template set< input_iterator_t >( begin_, end_ );
+    super::iter_set( begin_, end_ );
 }
 
 
-- 
2.43.0


From f84c1bac34eedfc7c72920745182e3b03ad4fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 22/42] fix: Quaternion::negate was declared but not defined

---
 vmmlib/quaternion.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 509997d..1ee07b2 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -632,6 +632,15 @@ Quaternion< T >::operator-() const
 
 
 
+template < typename T >
+Quaternion< T >
+Quaternion< T >::negate() const
+{
+    return operator-();
+}
+
+
+
 template < typename T >
 void Quaternion< T >::operator+=( const Quaternion< T >& q )
 {
-- 
2.43.0


From 148a57ba5ddd437da833217824d2b8211e8da991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 23/42] fix: Quaternion::rotate, rotate_x, rotate_y and
 rotate_z did not compile

---
 vmmlib/quaternion.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 1ee07b2..e7b4dce 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -852,8 +852,8 @@ Quaternion< T > Quaternion< T >::rotate( T theta, Vector< 3, T >& axis,
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) * axis.normalize() );
-    return q * p * q.invert();
+    Quaternion< T > q( vmml::normalize( axis ) * std::sin( alpha ), std::cos( alpha ));
+    return q * p * q.inverse();
 }
 
 
@@ -863,8 +863,8 @@ Quaternion< T > Quaternion< T >::rotate_x( T theta, const Vector< 3, T >& a )
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) *  QUATERI );
-    return q * p * q.invert();
+    Quaternion< T > q( std::sin( alpha ), 0, 0, std::cos( alpha ));
+    return q * p * q.inverse();
 }
 
 
@@ -874,8 +874,8 @@ Quaternion< T > Quaternion< T >::rotate_y( T theta, const Vector< 3, T >& a )
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) *  QUATERJ );
-    return q * p * q.invert();
+    Quaternion< T > q( 0, std::sin( alpha ), 0, std::cos( alpha ));
+    return q * p * q.inverse();
 }
 
 
@@ -885,8 +885,8 @@ Quaternion< T > Quaternion< T >::rotate_z( T theta, const Vector< 3, T >& a )
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) *  QUATERK );
-    return q * p * q.invert();
+    Quaternion< T > q( 0, 0, std::sin( alpha ), std::cos( alpha ));
+    return q * p * q.inverse();
 }
 
 
-- 
2.43.0


From a62023f2298fc681a635f1fb744146c50fcc3dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 24/42] fix: AABB::isEmpty compared the z minimum with the x
 maximum

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index bfab1f5..a1f4787 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -371,7 +371,7 @@ void AABB< T >::setEmpty()
 template< typename T > inline bool AABB< T >::isEmpty() const
 {
     return ( _min.x() >=  _max.x() || _min.y() >=  _max.y() ||
-             _min.z() >=  _max.x( ));
+             _min.z() >=  _max.z( ));
 }
 
 template< typename T >
-- 
2.43.0


From d60eb30e2c25224033b699d86bedcc59154032b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 25/42] fix: AABB::setEmpty of integer boxes

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index a1f4787..2a66717 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -364,7 +364,7 @@ template< typename T >inline
 void AABB< T >::setEmpty()
 {
     _min = std::numeric_limits< T >::max();
-    _max = -std::numeric_limits< T >::max();
+    _max = std::numeric_limits< T >::lowest();
 }
 
 
-- 
2.43.0


From 78ab080d2afa00d68a83541925d3a9bea9c5ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 26/42] fix: AABB::getCenter of integer boxes

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index 2a66717..f796813 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -312,7 +312,7 @@ AABB< T >::operator!=( const AABB< U >& other )
 template< typename T >
 Vector< 3, T > AABB< T >::getCenter() const
 {
-    return _min + ( ( _max - _min ) * 0.5f );
+    return _min + ( ( _max - _min ) / static_cast< T >( 2 ));
 }
 
 template< typename T >
-- 
2.43.0


From b64170dc6ba7d954c3a939c14ac1d0fe11252ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 27/42] fix: AABB construction from and containment of spheres
 did not compile

---
 vmmlib/aabb.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index f796813..4092d67 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -137,9 +137,9 @@ AABB< T >::AABB( const Vector< 3, T >& pMin,
 template< typename T >
 AABB< T >::AABB( const Vector< 4, T >& sphere )
 {
-    _max = _min = sphere.getCenter();
-    _max += sphere.getRadius();
-    _min -= sphere.getRadius();
+    _max = _min = sphere.template get_sub_vector< 3 >();
+    _max += sphere.w();
+    _min -= sphere.w();
 }
 
 template< typename T >
@@ -153,11 +153,11 @@ AABB< T >::AABB( T cx, T cy, T cz, T size )
 template< typename T >
 inline bool AABB< T >::isIn( const Vector< 4, T >& sphere )
 {
-    Vector< 3, T > sv ( sphere.getCenter() );
-    sv += sphere.getRadius();
+    Vector< 3, T > sv( sphere.template get_sub_vector< 3 >( ));
+    sv += sphere.w();
     if ( sv.x() > _max.x() || sv.y() > _max.y() || sv.z() > _max.z() )
         return false;
-    sv -= sphere.getRadius() * 2.0f;
+    sv -= sphere.w() * 2.0f;
     if ( sv.x() < _min.x() || sv.y() < _min.y() || sv.z() < _min.z() )
         return false;
     return true;
-- 
2.43.0


From bf89bd11c311a7989969bff29a2fbb28915f4e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 28/42] fix: Frustum::set_perspective ignored the near plane
 distance

---
 vmmlib/frustum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/frustum.hpp b/vmmlib/frustum.hpp
index 48bc493..75a5644 100644
--- a/vmmlib/frustum.hpp
+++ b/vmmlib/frustum.hpp
@@ -251,7 +251,7 @@ Frustum<T>::set_perspective( T fov_y, T aspect_ratio, T near_plane_,
     near_plane() = near_plane_;
     far_plane()   = far_plane_;
 
-    top()       = tan( 0.5 * fov_y * M_PI / 180.0 ) * 0.5;
+    top()       = tan( 0.5 * fov_y * M_PI / 180.0 ) * near_plane_;
     bottom()    = - top();
 
     left()      = bottom() * aspect_ratio;
-- 
2.43.0


From dc032f8650b2e22c14c7ad0185aa99ab06f073bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 29/42] fix: homogeneous conversion of integer vectors divided
 by a truncated reciprocal

---
 vmmlib/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 733cf5c..9ce306e 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1373,10 +1373,10 @@ template< size_t M, typename T > template< size_t N >
 typename enable_if< N == M + 1 >::type*
 Vector< M, T >::operator=( const Vector< N, T >& source_ )
 {
-    const T w_reci = static_cast< T >( 1.0 ) / source_( M );
+    const T w_ = source_( M );
     iterator it = begin(), it_end = end();
     for( size_t index = 0; it != it_end; ++it, ++index )
-        *it = source_( index ) * w_reci;
+        *it = source_( index ) / w_;
     return 0;
 }
 
-- 
2.43.0


From 90246b98097d34d12ee834d6db7a86f6361dec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 30/42] fix: free multiply() was ambiguous for square matrices

---
 vmmlib/matrix.hpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 81e5ec9..060f414 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -513,16 +513,6 @@ bool equals( const Matrix< M, N, T >& m0, const Matrix< M, N, T >& m1,
 }
 
 
-template< size_t M, size_t N, typename T >
-inline void multiply( const Matrix< M, N, T >& left,
-                      const Matrix< M, N, T >& right,
-                      Matrix< M, N, T >& result )
-{
-    result.multiply( left, right );
-}
-
-
-
 template< size_t M, size_t N, typename T >
 template< size_t U, size_t V >
 void Matrix< M, N, T>::convolve(const Matrix< U, V, T >& kernel)
-- 
2.43.0


From d6fbe77e4e4d3fe8c5a9f6dd2df04201bb8c69a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 31/42] fix: get_min and get_abs_min of an all-infinite matrix
 are not elements of it

---
 vmmlib/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 060f414..a84605d 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2327,7 +2327,7 @@ template< size_t M, size_t N, typename T  >
 T
 Matrix< M, N, T >::get_min() const
 {
-    T min_value = static_cast<T>(std::numeric_limits<T>::max());
+    T min_value = *begin();
 
     const_iterator  it = begin(),
     it_end = end();
@@ -2362,7 +2362,7 @@ template< size_t M, size_t N, typename T  >
 T
 Matrix< M, N, T >::get_abs_min() const
 {
-    T min_value = static_cast<T>(std::numeric_limits<T>::max());
+    T min_value = fabs( *begin() );
 
     const_iterator  it = begin(),
     it_end = end();
-- 
2.43.0


From ed378600f9bf23c849a674946de9d4f403a5afeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 32/42] fix: Quaternion from a rotation matrix near a half turn
 lost up to all digits

The trace branch divides by the square root of the trace, so its relative
error is eps/trace: one percent for float at the old threshold of 1e-5.
---
 vmmlib/quaternion.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index e7b4dce..31fc627 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -52,7 +52,7 @@
 
 // - declaration - //
 
-#define QUATERNION_TRACE_EPSILON 1e-5
+#define QUATERNION_TRACE_EPSILON 1.0
 
 namespace vmml
 {
@@ -276,7 +276,8 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
 {
     T trace = M( 0, 0 ) + M( 1, 1 ) + M( 2,2 ) + 1.0;
 
-    // very small traces may introduce a big numerical error
+    // small traces introduce a big numerical error: below 1, that is w^2 < 1/4,
+    // one of x, y, z has the largest magnitude and at least 1/2
     if( trace > QUATERNION_TRACE_EPSILON )
     {
         T s = 0.5 / sqrt( trace );
-- 
2.43.0


From d2c99d5f9a5337faf1033af233fa3ef0a7f91f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 33/42] fix: AABB<long double>() was not an empty box

numeric_limits<T>::min() is the smallest positive value for floating types.
---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index 4092d67..3da4785 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -114,7 +114,7 @@ inline std::ostream& operator << ( std::ostream& os,
 
 template< typename T > AABB< T >::AABB()
     : _min( std::numeric_limits< T >::max( ))
-    , _max( std::numeric_limits< T >::min( ))
+    , _max( std::numeric_limits< T >::lowest( ))
 {}
 
 template<> inline AABB< float >::AABB()
-- 
2.43.0


From 95496ae3415ad481f40af7bc8c4d0511f8374466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 34/42] fix: AABB::isIn( sphere ) rounded large integer radii
 to float

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index 3da4785..b350bc3 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -157,7 +157,7 @@ inline bool AABB< T >::isIn( const Vector< 4, T >& sphere )
     sv += sphere.w();
     if ( sv.x() > _max.x() || sv.y() > _max.y() || sv.z() > _max.z() )
         return false;
-    sv -= sphere.w() * 2.0f;
+    sv -= sphere.w() * static_cast< T >( 2 );
     if ( sv.x() < _min.x() || sv.y() < _min.y() || sv.z() < _min.z() )
         return false;
     return true;
-- 
2.43.0


From d63001eb0bdc50dce92963adcb606630c1d580a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 35/42] fix: vector.hpp and lowpass_filter.hpp could not be
 included on their own

uint8_t and size_t were used without including the headers declaring them.
---
 vmmlib/lowpass_filter.hpp | 1 +
 vmmlib/vector.hpp         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/vmmlib/lowpass_filter.hpp b/vmmlib/lowpass_filter.hpp
index 59b083b..43a241f 100644
--- a/vmmlib/lowpass_filter.hpp
+++ b/vmmlib/lowpass_filter.hpp
@@ -41,6 +41,7 @@
 
 #include <vmmlib/vmmlib_config.hpp>
 
+#include <cstddef>
 #include <deque>
 
 namespace vmml
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 9ce306e..5ebdc1c 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -42,6 +42,7 @@
 #include <iomanip>
 #include <vector>
 #include <string>
+#include <cstdint>
 #include <cstring>
 #include <limits>
 #include <algorithm>
-- 
2.43.0


From e416b0b81676645d5824359f5b385e7ff44ad79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 36/42] fix: matrix_equals_allow_inverted_rows/columns rejected
 inverted lines with zeros

---
 vmmlib/matrix_functors.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/vmmlib/matrix_functors.hpp b/vmmlib/matrix_functors.hpp
index 77c3179..1e6f4c9 100644
--- a/vmmlib/matrix_functors.hpp
+++ b/vmmlib/matrix_functors.hpp
@@ -80,12 +80,18 @@ struct matrix_equals_allow_inverted_rows : std::binary_function< const T&, const
         bool ok = true;
         for( size_t index = 0; ok && index < r; ++index )
         {
-            if ( matrix0.get_row( index ) != matrix1.get_row( index )
-                && matrix0.get_row( index ) != - matrix1.get_row( index ) )
+            // not comparing vectors, for which the zeros of an inverted row
+            // differ: 0 != -0
+            bool same = true;
+            bool inverted = true;
+            for( size_t col = 0; col < matrix0.get_number_of_columns(); ++col )
             {
-                ok = false;
+                const typename T::value_type v0 = matrix0.at( index, col );
+                const typename T::value_type v1 = matrix1.at( index, col );
+                same = same && v0 == v1;
+                inverted = inverted && v0 == -v1;
             }
-
+            ok = same || inverted;
         }
         return ok;
     }
@@ -121,12 +127,18 @@ struct matrix_equals_allow_inverted_columns : std::binary_function< const T&, co
         bool ok = true;
         for( size_t index = 0; ok && index < r; ++index )
         {
-            if ( matrix0.get_column( index ) != matrix1.get_column( index )
-                && matrix0.get_column( index ) != - matrix1.get_column( index ) )
+            // not comparing vectors, for which the zeros of an inverted column
+            // differ: 0 != -0
+            bool same = true;
+            bool inverted = true;
+            for( size_t row = 0; row < matrix0.get_number_of_rows(); ++row )
             {
-                ok = false;
+                const typename T::value_type v0 = matrix0.at( row, index );
+                const typename T::value_type v1 = matrix1.at( row, index );
+                same = same && v0 == v1;
+                inverted = inverted && v0 == -v1;
             }
-
+            ok = same || inverted;
         }
         return ok;
     }
-- 
2.43.0


From 1fa0d578ee1e8b604be329ed80963c0545feefb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 37/42] fix: math::squared of large integers was rounded to
 double

---
 vmmlib/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/math.hpp b/vmmlib/math.hpp
index 30d9013..a5dd612 100644
--- a/vmmlib/math.hpp
+++ b/vmmlib/math.hpp
@@ -49,7 +49,7 @@ namespace math
 template< class T >
 inline T squared( const T a )
 {
-    return ( a == 0.0 ) ? 0.0 : a * a;
+    return a * a;
 }
 
 
-- 
2.43.0


From 9dd2dbc1aec9be479377d346b95eef4c63cb4ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:01 +0000
Subject: [PATCH 38/42] fix: math::pythag of long double lost precision for |a|
 <= |b|

---
 vmmlib/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/math.hpp b/vmmlib/math.hpp
index a5dd612..b7a694c 100644
--- a/vmmlib/math.hpp
+++ b/vmmlib/math.hpp
@@ -65,7 +65,7 @@ inline T pythag( T a, T b )
     if ( a > b )
         return a * std::sqrt( 1.0 + squared( b / a ) );
     else
-        return ( b == 0.0 ) ? 0.0 : b * sqrt( 1.0 + squared( a / b ) );
+        return ( b == 0.0 ) ? 0.0 : b * std::sqrt( 1.0 + squared( a / b ) );
 }
 
 
-- 
2.43.0


From da5072caf31bef9f320eaf0738ceb458443d9458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 39/42] fix: norms of integer matrices and vectors overflowed
 the element type

---
 vmmlib/matrix.hpp | 2 +-
 vmmlib/vector.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index a84605d..998a921 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2244,7 +2244,7 @@ Matrix< M, N, T >::frobenius_norm( ) const
     const_iterator it = begin(), it_end = end();
     for( ; it != it_end; ++it )
     {
-        norm += *it * *it;
+        norm += static_cast< double >( *it ) * *it;
     }
 
     return std::sqrt(norm);
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 5ebdc1c..bb8a739 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1755,7 +1755,7 @@ Vector< M, T >::norm( ) const
     const_iterator it = begin(), it_end = end();
     for( ; it != it_end; ++it )
     {
-        norm_v += *it * *it;
+        norm_v += static_cast< double >( *it ) * *it;
     }
 
     return std::sqrt(norm_v);
-- 
2.43.0


From 21631f69892abd9f01c415e41187fcce1a8e91b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 40/42] fix: Matrix magnitudes no longer rounded to double

get_abs_min, get_abs_max, nnz( threshold ) and threshold went through
fabs( double ), so 64 bit integers beyond 2^53 were rounded: get_abs_max of
a long long matrix returned a value which is in no element, and threshold
zeroed elements above the threshold.
---
 vmmlib/matrix.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 998a921..f5df7df 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2362,14 +2362,14 @@ template< size_t M, size_t N, typename T  >
 T
 Matrix< M, N, T >::get_abs_min() const
 {
-    T min_value = fabs( *begin() );
+    T min_value = static_cast< T >( std::fabs( static_cast< long double >( *begin() )));
 
     const_iterator  it = begin(),
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( fabs(*it) < fabs(min_value) ) {
-            min_value = fabs(*it);
+        if ( std::fabs( static_cast< long double >( *it )) < min_value ) {
+            min_value = static_cast< T >( std::fabs( static_cast< long double >( *it )));
         }
     }
     return min_value;
@@ -2385,8 +2385,8 @@ Matrix< M, N, T >::get_abs_max() const
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( fabs(*it) > fabs(max_value) ) {
-            max_value = fabs(*it);
+        if ( std::fabs( static_cast< long double >( *it )) > max_value ) {
+            max_value = static_cast< T >( std::fabs( static_cast< long double >( *it )));
         }
     }
     return max_value;
@@ -2422,7 +2422,7 @@ Matrix< M, N, T >::nnz( const T& threshold_ ) const
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( fabs(*it) > threshold_ ) {
+        if ( std::fabs( static_cast< long double >( *it )) > threshold_ ) {
             ++counter;
         }
     }
@@ -2438,7 +2438,7 @@ Matrix< M, N, T >::threshold( const T& threshold_value_ )
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( fabs(*it) <= threshold_value_ ) {
+        if ( std::fabs( static_cast< long double >( *it )) <= threshold_value_ ) {
             *it = static_cast<T> (0);
         }
     }
-- 
2.43.0


From d974931fb4c6e9bce8fe8684349db9b17807bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:00 +0000
Subject: [PATCH 41/42] fix: Matrix::threshold may be given one of the matrix's
 own elements

---
 vmmlib/matrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index f5df7df..ba5d6c5 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2434,11 +2434,13 @@ template< size_t M, size_t N, typename T >
 void
 Matrix< M, N, T >::threshold( const T& threshold_value_ )
 {
+    // threshold_value_ may be one of our elements
+    const T limit = threshold_value_;
     iterator  it = begin(),
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( std::fabs( static_cast< long double >( *it )) <= threshold_value_ ) {
+        if ( std::fabs( static_cast< long double >( *it )) <= limit ) {
             *it = static_cast<T> (0);
         }
     }
-- 
2.43.0


From a75a4ce9736757be0f1e7407f089d1d65e1607ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:05 +0000
Subject: [PATCH 42/42] fix: distances, projections and rotations with points
 and axes of another element type

---
 vmmlib/vector.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index bb8a739..2830235 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1217,9 +1217,10 @@ Vector< M, T >::compute_normal( const Vector< M, T >& bb,
 
 template< size_t M, typename T >
 template< typename TT >
-Vector< 3, T > Vector< M, T >::rotate( const T theta, Vector< M, TT > axis,
+Vector< 3, T > Vector< M, T >::rotate( const T theta, Vector< M, TT > axis_,
             typename enable_if< M == 3, TT >::type* ) const
 {
+    Vector< M, double > axis( axis_ ); // TT might be an integer type
     axis.normalize();
 
     const T costheta = std::cos( theta );
@@ -1268,7 +1269,7 @@ distance_to_sphere( const Vector< 3, TT >& point,
     typename enable_if< M == 4, TT >::type* ) const
 {
     const Vector< 3, T >& center_ = get_sub_vector< 3 >( 0 );
-    return ( point - center_ ).length() - w();
+    return ( Vector< 3, T >( point ) - center_ ).length() - w();
 }
 
 template< size_t M, typename T > template< size_t N > inline
@@ -1307,7 +1308,7 @@ Vector< M, T >::project_point_onto_plane( const Vector< 3, TT >& point,
     typename enable_if< M == 4, TT >::type* ) const
 {
     const Vector< 3, T >& normal = get_sub_vector< 3 >( 0 );
-    return point - ( normal * distance_to_plane( point ) );
+    return Vector< 3, T >( point ) - ( normal * distance_to_plane( point ) );
 }
 
 
-- 
2.43.0

