From 123f4b375f06dd78a2936ef891e9a55458cde003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:51 +0000
Subject: [PATCH 01/11] fix: row stride of row-major mpz matrices is the number
 of columns

---
 conv/conv.cc           | 4 ++--
 matrix/mul.cc          | 8 ++++----
 matrix/mul_tranpose.cc | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/conv/conv.cc b/conv/conv.cc
index 97aa639..fd2f261 100644
--- a/conv/conv.cc
+++ b/conv/conv.cc
@@ -69,7 +69,7 @@ void conv(mpz_t* A, const Mat<ZZ> &B)
     {
         for(j = 0; j < colsB; j++)
         {
-            conv(A[i*rowsB+j], B[i][j]);
+            conv(A[i*colsB+j], B[i][j]);
         }
     }
 }
@@ -83,7 +83,7 @@ void conv(Mat<ZZ> &A, mpz_t* B, int64_t rowsB, int64_t colsB)
     {
         for(j = 0; j < colsB; j++)
         {
-            conv(A[i][j], B[i*rowsB + j]);
+            conv(A[i][j], B[i*colsB + j]);
         }
     }
 
diff --git a/matrix/mul.cc b/matrix/mul.cc
index e03bec4..5daef91 100644
--- a/matrix/mul.cc
+++ b/matrix/mul.cc
@@ -28,10 +28,10 @@ void mul(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t* B, int64_
             mpz_set_ui(acc,0);
             for(k = 0; k < rowsB; k++)
             {
-                mpz_mul(tmp, A[i*rowsA + k], B[k*rowsB + j]);
+                mpz_mul(tmp, A[i*colsA + k], B[k*colsB + j]);
                 mpz_add(acc,acc,tmp);
             }
-            mpz_set(result[i*rowsA + j],acc);
+            mpz_set(result[i*colsB + j],acc);
         }
     }
     mpz_clears(tmp, acc, NULL);
@@ -46,7 +46,7 @@ void mul(mpz_t* result, mpz_t a, mpz_t* A, int64_t rowsA, int64_t colsA)
     {
         for(j = 0; j < colsA; j++)
         {
-            mpz_mul(result[i*rowsA+j], a, A[i*rowsA+j]);
+            mpz_mul(result[i*colsA+j], a, A[i*colsA+j]);
         }
     }
 }
@@ -63,7 +63,7 @@ void mul(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t* v, int64_
         mpz_set_ui(acc,0);
         for(j = 0; j < colsA; j++)
         {
-            mpz_mul(tmp,A[i*rowsA +j],v[j]);
+            mpz_mul(tmp,A[i*colsA +j],v[j]);
             mpz_add(acc,acc,tmp);
         }
         mpz_set(result[i],acc);
diff --git a/matrix/mul_tranpose.cc b/matrix/mul_tranpose.cc
index 48a6a38..e0d2704 100644
--- a/matrix/mul_tranpose.cc
+++ b/matrix/mul_tranpose.cc
@@ -55,10 +55,10 @@ void mul_transpose(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t*
             mpz_set_ui(acc,0);
             for(k = 0; k < rowsB; k++)
             {
-                mpz_mul(tmp, A[i*rowsA + k], B[j*colsB + k]);
+                mpz_mul(tmp, A[i*colsA + k], B[j*rowsB + k]);
                 mpz_add(acc,acc,tmp);
             }
-            mpz_set(result[i*rowsA + j],acc);
+            mpz_set(result[i*colsB + j],acc);
         }
     }
     mpz_clears(tmp, acc,NULL);
-- 
2.43.0


From 342e8f0db3322044aa6cb4ea751b708f6167fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:51 +0000
Subject: [PATCH 02/11] fix: binomial must not wrap for values between 2^63 and
 2^64

---
 tools/binomial.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/binomial.cc b/tools/binomial.cc
index 1ed321d..a198324 100644
--- a/tools/binomial.cc
+++ b/tools/binomial.cc
@@ -25,7 +25,7 @@ int64_t binomial(const int64_t n, int64_t k)
         den *=i;
     }
     num = num/den;
-    assert( NumBytes(num) <= 8 );
+    assert( NumBits(num) <= 63 );
     return int64_t{conv<long>(num)};
 }
 
-- 
2.43.0


From 09e5f42bdfaede6a208e8b6436d958eda58f8d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:37 +0000
Subject: [PATCH 03/11] fix: sign of the functional equation when all middle
 coefficients vanish

---
 matrix/charpoly_frob.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/matrix/charpoly_frob.cc b/matrix/charpoly_frob.cc
index 270a76c..4306c0e 100644
--- a/matrix/charpoly_frob.cc
+++ b/matrix/charpoly_frob.cc
@@ -32,7 +32,9 @@ Vec<ZZ> charpoly_frob(const Mat<ZZ> M,  Vec<int64_t> prec, const int64_t p, cons
     {
         // figure out the sign if dimension is even, i.e., weight is even
         // for odd case the sign is 1
-        for (int64_t i = 1; i <= degree/2; ++i) {
+        // the constant term is considered last, for when all the others vanish
+        for (int64_t j = 1; j <= degree/2 + 1; ++j) {
+            const int64_t i = (j <= degree/2) ? j : 0;
             ZZ p_power = power_ZZ(p, std::min(prec[i], prec[degree - i] + ((degree-2*i)*dimension) /2));
             if( cp[i] % p_power !=0 &&  cp[degree-i] % p_power != 0) {
                 if (0 == (cp[i] + cp[degree - i] * power_ZZ(p, ((degree-2*i)*dimension) /2)) %  p_power )
-- 
2.43.0


From aa3827076a377512907d41b6b5829a444df8b5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:23 +0000
Subject: [PATCH 04/11] fix: for p = 2 a coefficient that equals its negative
 does not determine the sign

---
 matrix/charpoly_frob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/charpoly_frob.cc b/matrix/charpoly_frob.cc
index 4306c0e..9186fec 100644
--- a/matrix/charpoly_frob.cc
+++ b/matrix/charpoly_frob.cc
@@ -36,7 +36,7 @@ Vec<ZZ> charpoly_frob(const Mat<ZZ> M,  Vec<int64_t> prec, const int64_t p, cons
         for (int64_t j = 1; j <= degree/2 + 1; ++j) {
             const int64_t i = (j <= degree/2) ? j : 0;
             ZZ p_power = power_ZZ(p, std::min(prec[i], prec[degree - i] + ((degree-2*i)*dimension) /2));
-            if( cp[i] % p_power !=0 &&  cp[degree-i] % p_power != 0) {
+            if( (2 * cp[i]) % p_power !=0 &&  cp[degree-i] % p_power != 0) {
                 if (0 == (cp[i] + cp[degree - i] * power_ZZ(p, ((degree-2*i)*dimension) /2)) %  p_power )
                     signal = -1;
                 else {
-- 
2.43.0


From 158f99fcc3ea4ff2941eb14473af484bf2ba25ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:28 +0000
Subject: [PATCH 05/11] fix: p-adic splitting of the zero map must not keep
 stale entries of its output

---
 solve_system/solve_system.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solve_system/solve_system.cc b/solve_system/solve_system.cc
index 885005a..b47f401 100644
--- a/solve_system/solve_system.cc
+++ b/solve_system/solve_system.cc
@@ -343,6 +343,7 @@ void solve_system_padic_flint(Vec<int64_t> &B, Mat<ZZ_p> &U, const Mat<ZZ_p> &T,
     {
         B.SetLength(nrows);
         U.SetDims(nrows,nrows);
+        clear(U);
         for(i = 0; i < nrows; i++)
         {
             B[i] = i;
@@ -501,6 +502,7 @@ void solve_system_padic_NTL(Vec<int64_t> &B, Mat<ZZ_p> &U, const Mat<ZZ_p> &T, i
     {
         B.SetLength(nrows);
         U.SetDims(nrows,nrows);
+        clear(U);
         for(i = 0; i < nrows; i++)
         {
             B[i] = i;
-- 
2.43.0


From 0c7a26d9444fc21fa4cba351c16715639d46e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:55 +0000
Subject: [PATCH 06/11] fix: finite differences when a coefficient matrix
 vanishes where a higher one does not

---
 dr_nd/dr_nd.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index f682f4a..34b9f5d 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -1907,12 +1907,20 @@ void finitediff_flint_nmod(fmpz * result, fmpz_mat_struct * M_fmpz, const int64_
         }
     }
     i = n + 1;
-    while( max_row[i] == 0 and min_col[i] == d and i >= 0)
+    while( i > 0 and max_row[i] == 0 and min_col[i] == d )
     {
         //M[i] = 0;
         n--;
         i--;
     }
+    // the i-th difference involves every M[j] with j >= i
+    for(i = n; i >= 0; i--)
+    {
+        if(max_row[i] < max_row[i + 1])
+            max_row[i] = max_row[i + 1];
+        if(min_col[i] > min_col[i + 1])
+            min_col[i] = min_col[i + 1];
+    }
 
 
 
-- 
2.43.0


From 7914217bbc98a0b508bace7011b3e87b76c1afb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:55 +0000
Subject: [PATCH 07/11] fix: modulus cleared inside the loop that uses it

---
 hypersurface_nd/hypersurface_nd.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hypersurface_nd/hypersurface_nd.cc b/hypersurface_nd/hypersurface_nd.cc
index 48f192c..e7b382f 100644
--- a/hypersurface_nd/hypersurface_nd.cc
+++ b/hypersurface_nd/hypersurface_nd.cc
@@ -650,7 +650,6 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_flint(const int64_t coordinate, c
             flint_free(v_list);
             flint_free(poly_list);
             _fmpz_vec_clear(G_list,Hlen*dpowern);
-            fmpz_clear(modulus);
             // reduced all terms from p*e to p*(e-1) and if e = 1 to basis
             H.swap(Hnew);
         }
-- 
2.43.0


From 03f8d9ce0aee1104ad090673bef23df95043865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:24 +0000
Subject: [PATCH 08/11] fix: reduce the step before modular multiplication when
 it exceeds the modulus

---
 dr_nd/dr_nd.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 34b9f5d..53aa38c 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -833,11 +833,11 @@ void de_Rham_non_degenerate_local::reduce_vector_ND_poly_flint(fmpz * result, fm
                 mul(Gout, poly_nmod + 0, Gin, dot_params);
                 for(int64_t i = 1; i <= n; i++)
                 {
-                    xpower = nmod_mul(xpower, x, mod); // xpower = x^i
+                    xpower = nmod_mul(xpower, x % mod.n, mod); // xpower = x^i
                     mul(Gtmp, poly_nmod + i, Gin, dot_params);
                     _nmod_vec_scalar_addmul_nmod(Gout, Gtmp, dpowern, xpower, mod);
                 }
-                xpower = nmod_mul(xpower, x, mod);
+                xpower = nmod_mul(xpower, x % mod.n, mod);
                 tmp = nmod_vec_dot_compat(nmod_mat_row_srcptr(poly_nmod + n + 1, 0), Gin, dpowern, mod, dot_params);
                 //NMOD_VEC_DOT(tmp, i, dpowern, (poly_nmod + n+1)->rows[0], Gin, mod, nlimbs);
                 tmp = nmod_mul(tmp, xpower, mod);
-- 
2.43.0


From d90e514264708f4689b66b5e4a688d5b9f30bdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 09/11] fix: frob_J_ZZ_p carries the factorial down to pole
 order one when p <= n

---
 hypersurface/frob_J_ZZ_p.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hypersurface/frob_J_ZZ_p.cc b/hypersurface/frob_J_ZZ_p.cc
index 03ad9ee..becfb72 100644
--- a/hypersurface/frob_J_ZZ_p.cc
+++ b/hypersurface/frob_J_ZZ_p.cc
@@ -253,6 +253,14 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
         for( i = 0; i < end ; i++)
             fact *= p*e - i - 1;
     }
+    // no terms with pole order p*e for e < m
+    for( ; e > 0; e--)
+    {
+        end = (e > 1) ? p : p - 1;
+
+        for( i = 0; i < end ; i++)
+            fact *= p*e - i - 1;
+    }
 
     assert( fact == factorial<ZZ_p>( p*(m + N - 1) - 1 ) );
     val = valuation_of_factorial(p*(m + N - 1) - 1, p);
-- 
2.43.0


From 4a76a476a4831f9c106196a7fe210c8f7c433db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 10/11] fix: name of the temporary file overflows its buffer in
 save

---
 dr/save.cc     | 8 +++-----
 dr_nd/dr_nd.cc | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/dr/save.cc b/dr/save.cc
index 4354562..d00acfd 100644
--- a/dr/save.cc
+++ b/dr/save.cc
@@ -10,10 +10,8 @@ bool de_Rham_local::save(const char * filename)
         cout <<"Saving de_Rham_local to: "<< filename << endl;
 
     ofstream fileswp;
-    char fileswpname[sizeof(filename)+4];
-    strcpy(fileswpname, filename);
-    strcat(fileswpname,".swp");
-    fileswp.open(fileswpname);
+    const string fileswpname = string(filename) + ".swp";
+    fileswp.open(fileswpname.c_str());
 
     int64_t i;
     ofstream file;
@@ -51,7 +49,7 @@ bool de_Rham_local::save(const char * filename)
         file << solve_pair->second <<endl;
         file.close();
         fileswp.close();
-        remove(fileswpname);
+        remove(fileswpname.c_str());
         return true;
     }
     else
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 53aa38c..4e610bb 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -248,10 +248,8 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
         cout <<"Saving de_Rham_non_degenerate_local to: "<< filename << endl;
 
     ofstream fileswp;
-    char fileswpname[sizeof(filename)+4];
-    strcpy(fileswpname, filename);
-    strcat(fileswpname,".swp");
-    fileswp.open(fileswpname);
+    const string fileswpname = string(filename) + ".swp";
+    fileswp.open(fileswpname.c_str());
 
     int64_t i;
     ofstream file;
@@ -305,7 +303,7 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
 
         file.close();
         fileswp.close();
-        remove(fileswpname);
+        remove(fileswpname.c_str());
         return true;
     }
     else
-- 
2.43.0


From 197c3578d05fd8fa57e2ade236acb4fe6d9b05a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:15 +0000
Subject: [PATCH 11/11] fix: save the polynomial itself, not its residue, next
 to the tables computed from it

---
 dr/constructors.cc | 14 +++++++-------
 dr/save.cc         | 12 ++++++------
 dr_nd/dr_nd.cc     | 26 +++++++++++++-------------
 3 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/dr/constructors.cc b/dr/constructors.cc
index c8e845a..d2295e1 100644
--- a/dr/constructors.cc
+++ b/dr/constructors.cc
@@ -96,7 +96,7 @@ de_Rham_local::de_Rham_local(const char* filename)
 {
     int64_t i, j;
     ifstream file;
-    Vec<zz_p> fbar_vector;
+    Vec<ZZ_p> f_vector;
     pair< Vec<int64_t>, Mat<ZZ_p> > *solve_pair;
     file.open(filename);
 
@@ -111,7 +111,7 @@ de_Rham_local::de_Rham_local(const char* filename)
         file >> n;
         file >> d;
         file >> Hilbert_J;
-        file >> fbar_vector;
+        file >> f_vector;
 
         tuple_list.SetLength( (n + 1) * d + 1);
         tuple_dict.SetLength( (n + 1) * d + 1);
@@ -123,13 +123,13 @@ de_Rham_local::de_Rham_local(const char* filename)
                 tuple_dict[i][ ((tuple_list[i])[j]) ] = j;
             }
         }
-        assert( tuple_list[d].length() == fbar_vector.length() );
-        for(i = 0 ; i < (int64_t) fbar_vector.length() ; i++)
+        assert( tuple_list[d].length() == f_vector.length() );
+        for(i = 0 ; i < (int64_t) f_vector.length() ; i++)
         {
-            if( ! IsZero(fbar_vector[i]) )
+            if( ! IsZero(f_vector[i]) )
             {
-                f[ tuple_list[d][i] ] = rep( fbar_vector[i] );
-                fbar[ tuple_list[d][i] ] = fbar_vector[i];
+                f[ tuple_list[d][i] ] = f_vector[i];
+                fbar[ tuple_list[d][i] ] = rep( f_vector[i] ) % p;
             }
         }
 
diff --git a/dr/save.cc b/dr/save.cc
index d00acfd..8be3372 100644
--- a/dr/save.cc
+++ b/dr/save.cc
@@ -15,13 +15,13 @@ bool de_Rham_local::save(const char * filename)
 
     int64_t i;
     ofstream file;
-    Vec<zz_p> fbar_vector;
-    map< Vec<int64_t>, zz_p, vi64less>::const_iterator it;
+    Vec<ZZ_p> f_vector;
+    map< Vec<int64_t>, ZZ_p, vi64less>::const_iterator it;
     pair< Vec<int64_t> , Mat<ZZ_p> > *solve_pair;
 
-    fbar_vector.SetLength( tuple_list[d].length() );
-    for( it = fbar.begin(); it != fbar.end(); it++)
-        fbar_vector[ tuple_dict[d][it->first] ] = it->second;
+    f_vector.SetLength( tuple_list[d].length() );
+    for( it = f.begin(); it != f.end(); it++)
+        f_vector[ tuple_dict[d][it->first] ] = it->second;
 
     file.open(filename, ios::out | ios::trunc);
 
@@ -36,7 +36,7 @@ bool de_Rham_local::save(const char * filename)
         file << n <<endl;
         file << d <<endl;
         file << Hilbert_J <<endl;
-        file << fbar_vector << endl;
+        file << f_vector << endl;
 
         for( i = 0; i < n ; i++)
         {
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 4e610bb..259f6b5 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -105,7 +105,7 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
 {
     int64_t i, j;
     ifstream file;
-    Vec<zz_p> fbar_vector;
+    Vec<ZZ_p> f_vector;
     pair< Vec<int64_t>, Mat<ZZ_p> > *solve_pair;
     file.open(filename);
 
@@ -120,7 +120,7 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
         file >> n;
         file >> d;
         file >> Hilbert_J;
-        file >> fbar_vector;
+        file >> f_vector;
 
         tuple_list.SetLength( (n + 1) * d + 1);
         tuple_dict.SetLength( (n + 1) * d + 1);
@@ -132,13 +132,13 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
                 tuple_dict[i][ ((tuple_list[i])[j]) ] = j;
             }
         }
-        assert( tuple_list[d].length() == fbar_vector.length() );
-        for(i = 0 ; i < (int64_t) fbar_vector.length() ; i++)
+        assert( tuple_list[d].length() == f_vector.length() );
+        for(i = 0 ; i < (int64_t) f_vector.length() ; i++)
         {
-            if( ! IsZero(fbar_vector[i]) )
+            if( ! IsZero(f_vector[i]) )
             {
-                f[ tuple_list[d][i] ] = rep( fbar_vector[i] );
-                fbar[ tuple_list[d][i] ] = fbar_vector[i];
+                f[ tuple_list[d][i] ] = f_vector[i];
+                fbar[ tuple_list[d][i] ] = rep( f_vector[i] ) % p;
             }
         }
 
@@ -253,13 +253,13 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
 
     int64_t i;
     ofstream file;
-    Vec<zz_p> fbar_vector;
-    map< Vec<int64_t>, zz_p, vi64less>::const_iterator it;
+    Vec<ZZ_p> f_vector;
+    map< Vec<int64_t>, ZZ_p, vi64less>::const_iterator it;
     pair< Vec<int64_t> , Mat<ZZ_p> > *solve_pair;
 
-    fbar_vector.SetLength( tuple_list[d].length() );
-    for( it = fbar.begin(); it != fbar.end(); it++)
-        fbar_vector[ tuple_dict[d][it->first] ] = it->second;
+    f_vector.SetLength( tuple_list[d].length() );
+    for( it = f.begin(); it != f.end(); it++)
+        f_vector[ tuple_dict[d][it->first] ] = it->second;
 
     file.open(filename, ios::out | ios::trunc);
 
@@ -274,7 +274,7 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
         file << n <<endl;
         file << d <<endl;
         file << Hilbert_J <<endl;
-        file << fbar_vector << endl;
+        file << f_vector << endl;
 
         for( i = 0; i < n ; i++)
         {
-- 
2.43.0

