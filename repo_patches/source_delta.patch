From d00c07886f47c8ce26be69e726c668a3183197f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 01/38] fix: SortingStatus::visits(v) must clear the stored
 count before setting it

---
 src/sorting_status.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorting_status.hpp b/src/sorting_status.hpp
index dbdc764..1bc56d7 100644
--- a/src/sorting_status.hpp
+++ b/src/sorting_status.hpp
@@ -86,8 +86,8 @@ public:
   template<typename T>
   status_t visits(T v) {
     if (v <= static_cast<status_t>(-1) >> v_shift){
-      this->status ^= v_mask; // keep everything but the number of visits
-      this->status += v << v_shift; // add the offset visits value
+      this->status &= ~v_mask; // keep everything but the number of visits
+      this->status += static_cast<status_t>(v) << v_shift; // add the offset visits value
     }
     else
       throw std::overflow_error("SortingStatus can not hold more than 2^29-1 visits.");
-- 
2.43.0


From 3171f002e5c3ba25bd436d15900d1b195e0de74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 02/38] fix: ThreadException must not let exceptions outside
 std::exception escape while combining messages

---
 src/thread_exception.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/thread_exception.h b/src/thread_exception.h
index cc6d03d..5ed523b 100644
--- a/src/thread_exception.h
+++ b/src/thread_exception.h
@@ -17,6 +17,8 @@ public:
         if (ptr_) std::rethrow_exception(ptr_);
       } catch (const std::exception & e){
         oss << e.what();
+      } catch (...) {
+        oss << "unknown exception";
       }
       ptr_ = std::make_exception_ptr(std::runtime_error(oss.str()));
     }
@@ -30,11 +32,15 @@ public:
         if (ptr_) std::rethrow_exception(ptr_);
       } catch (const std::exception & e){
         oss << e.what();
+      } catch (...) {
+        oss << "unknown exception";
       }
       try {
         std::rethrow_exception(std::current_exception());
       } catch (const std::exception & e){
         oss << "\n" << e.what();
+      } catch (...) {
+        oss << "\nunknown exception";
       }
       ptr_ = std::make_exception_ptr(std::runtime_error(oss.str()));
     } else {
-- 
2.43.0


From 7f74b0f71bf4a71346ba8c80fbe81cc354b22084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 03/38] fix: in-place matrix_transpose must stride by the
 matrix size

---
 src/utilities.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 9a8dcb5..5cfc0e5 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -186,9 +186,9 @@ template<typename R, int N> void complex_conj_matrix_transpose(std::complex<R> *
 template<typename R, int N> void matrix_transpose(R *B){
   R t;
   for (int i=0; i<N; i++) for(int j=i+1; j<N; j++) {
-    t = B[i+j*3];
-    B[i+j*3] = B[j+i*3];
-    B[j+i*3] = t;
+    t = B[i+j*N];
+    B[i+j*N] = B[j+i*N];
+    B[j+i*N] = t;
   }
 }
 
-- 
2.43.0


From aa05f012595bfcd5de2a4f7f5562d6a715f0984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 04/38] fix: real-valued inplace_antiphase must still copy its
 input to its output

Interpolator<T>::add_cost passes an uninitialised buffer and uses it
afterwards; with real eigenvectors the costs were computed from
indeterminate values.
---
 src/utilities.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 5cfc0e5..fdfd32e 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -527,7 +527,7 @@ template<class T> T magnitude(const std::complex<T> a){
   // undocumented real-valued (default) functions:
   template<class T> T antiphase(const T){return T(1);}
   template<class I, class T> T antiphase(const I, const T*, const T*){return T(1);}
-  template<class I, class T> void inplace_antiphase(const I, const T*, const T*, T*) {}
+  template<class I, class T> void inplace_antiphase(const I n, const T*, const T* b, T* phased){ for (I i=0; i<n; ++i) phased[i] = b[i]; }
   template<class T, template<class> class A> T unsafe_antiphase(const A<T>&, const A<T>&){return T(1);}
 #endif
 /*! \brief Find the reciprocal phase of a complex number
-- 
2.43.0


From bc6ce97de557616757087bc60c11f7ce92e74766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 05/38] fix: LU_decomposition must use the matrix order, not
 its element count

Loops, row stride and the final diagonal term used N = M*M and so read
and wrote outside the array; the pivot comparison looked along the row
instead of at the current pivot.
---
 src/linear_algebra.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/linear_algebra.hpp b/src/linear_algebra.hpp
index 6d89717..e6a363b 100644
--- a/src/linear_algebra.hpp
+++ b/src/linear_algebra.hpp
@@ -87,13 +87,13 @@ namespace brille::linear_algebra {
     std::vector<size_t> refs(M);
     std::iota(refs.begin(), refs.end(), 0u);
     T det{1};
-    auto s2i = [&](const size_t & i, const size_t & j){return refs[i] * N + j;};
+    auto s2i = [&](const size_t & i, const size_t & j){return refs[i] * M + j;};
 
     // LU factorisation:
-    for (size_t p=0; p < N-1; ++p){
+    for (size_t p=0; p < M-1; ++p){
       // locate pivot element
-      for (size_t i=p; i < N; ++i){
-        if (std::abs(LU[s2i(i, p)]) > std::abs(LU[s2i(p, i)])) {
+      for (size_t i=p; i < M; ++i){
+        if (std::abs(LU[s2i(i, p)]) > std::abs(LU[s2i(p, p)])) {
           // switch the index for the p -1 pivot row
           std::swap(refs[p], refs[i]);
           det = -det;
@@ -105,15 +105,15 @@ namespace brille::linear_algebra {
       // multiply diagonal
       det *= LU[s2i(p, p)];
       // form multiplier
-      for (size_t i=p+1; i < N; ++i){
+      for (size_t i=p+1; i < M; ++i){
         LU[s2i(i, p)] /= LU[s2i(p, p)];
         // eliminate [p-1]
-        for (size_t j=p+1; j < N; ++j){
+        for (size_t j=p+1; j < M; ++j){
           LU[s2i(i, j)] -= LU[s2i(i, p)] * LU[s2i(p, j)];
         }
       }
     }
-    det = det * LU[s2i(N-1, N-1)];
+    det = det * LU[s2i(M-1, M-1)];
     return std::make_tuple(det != 0, det, LU);
   }
 
-- 
2.43.0


From 572052dca0e7d063e834eddc9f3995619973f845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:10 +0000
Subject: [PATCH 06/38] fix: compare arrays approximately with the same
 predicate as scalars

The array loop applied an integer tolerance to integer elements, the
scalar comparison is exact for them, so approx_float::vector and scalar
disagreed for integers.
---
 src/approx_float.hpp | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/approx_float.hpp b/src/approx_float.hpp
index 715bd6c..c5f4074 100644
--- a/src/approx_float.hpp
+++ b/src/approx_float.hpp
@@ -221,24 +221,7 @@ namespace brille::approx_float{
   template<class T, class R>
   bool _array(const size_t NM, const T* a, const R* b, const bool useT, const T Trel, const R Rrel, const T Tabs, const R Rabs){
     bool answer=true;
-    // we need <= in case T and R are integer, otherwise this is *always* false since 0 !< 0
-    if (useT){
-      T Tmin = std::numeric_limits<T>::min();
-      for (size_t i=0; i<NM; ++i){
-        auto x = brille::abs(a[i]-b[i]);
-        // if both a and b are close to epsilon for its type, our comparison of |a-b| to |a+b| might fail
-        // if ( brille::abs(a[i]) <= Trel && brille::abs(b[i]) <= Rrel ) answer &= x <= Trel;
-        answer &= x <= Tabs + Trel*brille::abs(a[i]+b[i]) || x < Tmin;
-      }
-    } else {
-      R Rmin = std::numeric_limits<R>::min();
-      for (size_t i=0; i<NM; ++i){
-        auto x = brille::abs(a[i]-b[i]);
-        // if both a and b are close to epsilon for its type, our comparison of |a-b| to |a+b| might fail
-        // if ( brille::abs(a[i]) <= Trel && brille::abs(b[i]) <= Rrel ) answer &= x <= Rrel;
-        answer &= x <= Rabs + Rrel*brille::abs(a[i]+b[i]) || x < Rmin;
-      }
-    }
+    for (size_t i=0; i<NM; ++i) answer &= _scalar(a[i], b[i], useT, Trel, Rrel, Tabs, Rabs);
     return answer;
   }
 
-- 
2.43.0


From ce12ccab808b1aa773ea1dd5c41085459fb85bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 07/38] fix: Array2::all(le_ge) must use the tolerances it was
 given

---
 src/array2.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index 5b2bf32..ceba019 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -664,7 +664,7 @@ bool Array2<T>::match(const ind_t i, const ind_t j, brille::ops op, T val, const
 template<class T>
 bool Array2<T>::all(const brille::cmp expr, const T val, const T Ttol, const int tol) const {
   if (brille::cmp::le_ge == expr)
-    return this->all(brille::cmp::le, val) || this->all(brille::cmp::ge, val);
+    return this->all(brille::cmp::le, val, Ttol, tol) || this->all(brille::cmp::ge, val, Ttol, tol);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr, Ttol, Ttol, tol);
   for (ind_t k=0; k<no; ++k) if(!op(_data[this->l2l_d(k)], val)) return false;
-- 
2.43.0


From 64ea3e098f93e74205dcfe3e25acda4cfd627646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:36 +0000
Subject: [PATCH 08/38] fix: lin2sub must resolve the last subscript of
 column-ordered strides

---
 src/subscript.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subscript.hpp b/src/subscript.hpp
index af72b86..9af98cc 100644
--- a/src/subscript.hpp
+++ b/src/subscript.hpp
@@ -546,7 +546,7 @@ std::vector<I> lin2sub(I l, const std::vector<I>& stride){
   else if (1 < ndim) {
     sub.resize(ndim);
     if (stride[ndim-1] > stride[0])
-    for (I i=ndim-1; i--; ){
+    for (I i=ndim; i--; ){
       sub[i] = l/stride[i];
       l -= sub[i]*stride[i];
     }
-- 
2.43.0


From 770b311413228862ca68954e62332fcc33247d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:36 +0000
Subject: [PATCH 09/38] fix: decoupling an Array view must use strides of the
 new, smaller, block

---
 src/array.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index f67eae3..24bd750 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -414,17 +414,19 @@ private:
   Array<T> _decouple() const {
     ind_t nnum = this->size_from_shape(_shape);
     T* new_data = new T[nnum]();
+    shape_t new_st{_stride};
     if (nnum == _num) {
       std::copy(_data, _data+_num, new_data);
     } else {
       //subscript conversion necessary due to offset
-      //                                   vvv(no offset)vvvv          vvv(offset)vvv
-      for (auto x: SubIt(_shape)) new_data[sub2lin(x,_stride)] = _data[this->s2l_d(x)];
+      new_st = this->calculate_stride(_shape);
+      //                                   vvv(no offset)vvvv         vvv(offset)vvv
+      for (auto x: SubIt(_shape)) new_data[sub2lin(x,new_st)] = _data[this->s2l_d(x)];
     }
     bool new_own = true; // always take ownership of C++ allocated memory
     auto new_ref = std::make_shared<char>(); // always use the default with C++ created arrays
     bool new_mut = true; // new allocated memory should be mutable
-    return Array<T>(new_data, nnum, new_own, new_ref, _shape, _stride, new_mut);
+    return Array<T>(new_data, nnum, new_own, new_ref, _shape, new_st, new_mut);
   }
 public:
   // sub-array access
-- 
2.43.0


From 0f366d3e51840e36d7d29305a6e6b0fff49e68d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:36 +0000
Subject: [PATCH 10/38] fix: iterating over or broadcasting to a shape without
 elements must not visit any subscript

---
 src/subscript.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/subscript.hpp b/src/subscript.hpp
index 9af98cc..8a5598c 100644
--- a/src/subscript.hpp
+++ b/src/subscript.hpp
@@ -176,6 +176,8 @@ public:
   SubIt<T> begin() const {
     // return SubIt<T>(_shape, _inpt, _sub, _fixed);
     size_t n = this->ndim();
+    // there is nothing to iterate over if any dimension has no extent
+    for (const auto & x: _shape) if (x == T(0)) return this->end();
     holder sub(n,T(0));
     for (size_t i=0; i<sub.size(); ++i) if (_fixed[i]) sub[i] = _inpt[i];
     return {_shape, _inpt, std::move(sub), _fixed};
@@ -284,6 +286,8 @@ public:
   holder* operator->() {return &_sub;}
   // std::tuple<T,T> operator*() const {return std::make_tuple(_sub[0], _sub[1])};
   SubIt2<T> begin() const {
+    // there is nothing to iterate over if either dimension has no extent
+    if (_shape[0] == T(0) || _shape[1] == T(0)) return this->end();
     holder sub({T(0), T(0)});
     if (_fixed[0]) sub[0] = _inpt[0];
     if (_fixed[1]) sub[1] = _inpt[1];
@@ -355,7 +359,7 @@ public:
         msg += "} to a common shape";
         throw std::runtime_error(msg);
       } else {
-        _shapeO[i] = _shape0[i] < _shape1[i] ? _shape1[i] : _shape0[i];
+        _shapeO[i] = _shape0[i] == 1 ? _shape1[i] : _shape0[i];
       }
   }
   BroadcastIt(const holder& s0, const holder& s1, const holder & sO, const holder& i0, const holder& i1, const holder& iO)
@@ -404,6 +408,8 @@ public:
   std::tuple<holder,holder,holder> operator*() const {return triple_subscripts();}
   BroadcastIt<T> begin() const {
     size_t n = this->ndim();
+    // there is nothing to iterate over if any dimension has no extent
+    for (const auto & x: _shapeO) if (x == T(0)) return this->end();
     /* Something here causes a compiler warning */
     holder s0(n,0), s1(n,0), sO(n,0);
     return {_shape0, _shape1, _shapeO, std::move(s0), std::move(s1), std::move(sO)};
@@ -474,7 +480,7 @@ public:
         msg += "} to a common shape";
         throw std::runtime_error(msg);
       } else {
-        _shapeO[i] = _shape0[i] < _shape1[i] ? _shape1[i] : _shape0[i];
+        _shapeO[i] = _shape0[i] == 1 ? _shape1[i] : _shape0[i];
       }
   }
   BroadcastIt2(const holder& s0, const holder& s1, const holder & sO, const holder& i0, const holder& i1, const holder& iO)
@@ -515,6 +521,8 @@ public:
     return std::make_tuple(_subO, _sub0, _sub1);
   }
   BroadcastIt2<T> begin() const {
+    // there is nothing to iterate over if either dimension has no extent
+    if (_shapeO[0] == T(0) || _shapeO[1] == T(0)) return this->end();
     holder s0({0,0}), s1({0,0}), sO({0,0});
     return {_shape0, _shape1, _shapeO, std::move(s0), std::move(s1), std::move(sO)};
   }
-- 
2.43.0


From 266069ae685668c324d935840b4ee345393bac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:57 +0000
Subject: [PATCH 11/38] fix: s2u must refuse values above the range of its
 unsigned type

---
 src/utilities.tpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index fdfd32e..82c0594 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -742,9 +742,7 @@ S u2s(const U u){
 
 template<typename U,typename S>
 U s2u(const S s){
-  if (s < 0
-    //|| static_cast<U>((std::numeric_limits<S>::max)()) > (std::numeric_limits<U>::max)() // the largest element of type S is too big for U
-    //|| s > static_cast<S>((std::numeric_limits<U>::max)()) // s, specifically is too big to be expressed in type U
+  if (s < 0 || static_cast<std::make_unsigned_t<S>>(s) > (std::numeric_limits<U>::max)()
   ){
     std::string msg = "signed_to_unsiged:: Value " + std::to_string(s)
                     + " can not be stored in requested unsiged type"
-- 
2.43.0


From 2cb345814bd312197308f0e680d090efa1469add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:14 +0000
Subject: [PATCH 12/38] fix: VertexMapSet can insert a vertex when it holds
 none and has no space reserved

2*appended_count_ is zero for the first crafted vertex of a set with one
pristine vertex, so the vertex was written outside of the storage
---
 src/vertex_map_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vertex_map_set.h b/src/vertex_map_set.h
index 05808c9..f6c725d 100644
--- a/src/vertex_map_set.h
+++ b/src/vertex_map_set.h
@@ -229,7 +229,7 @@ private:
   }
 
   rel_t insert(const A<T>& vertex){
-    if (appended_.size(0) < appended_count_ + 1u) appended_.resize(2 * appended_count_);
+    if (appended_.size(0) < appended_count_ + 1u) appended_.resize(2 * appended_count_ + 1u); // appended_ may hold no vertices yet
     appended_.set(appended_count_, vertex);
     //return pristine_count() + appended_count_++;
     return std::make_pair(MapVertexType::Appended, appended_count_++);
-- 
2.43.0


From f533a5b19ec3b99d01708ee710d203d8142cbbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:33 +0000
Subject: [PATCH 13/38] fix: in-place scalar operators of Array visit the
 elements of strided views

l2l_d only applies the offset, so views with gaps or column order had
other elements of their parent modified
---
 src/array.tpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index 0cdc9b8..0dae5e6 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -1207,12 +1207,7 @@ Array<T> Array<T>::slice(const ind_t i) const {
 #define SCALAR_INPLACE_OP(X) template<class T>\
 Array<T>& Array<T>::operator X (const T& val){\
   if (!this->ismutable()) throw std::runtime_error("Immutable Arrays can not be modified");\
-  ind_t nel=this->numel();\
-  ind_t idx{0};\
-  for (ind_t i=0; i<nel; ++i){\
-    idx = this->l2l_d(i);\
-    _data[idx] X val;\
-  }\
+  for (auto sub: this->subItr()) _data[this->s2l_d(sub)] X val;\
   return *this;\
 }
 SCALAR_INPLACE_OP(+=)
-- 
2.43.0


From 8b56e3bc95d1b81a26c8ed8bdc7edc845dd63da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:33 +0000
Subject: [PATCH 14/38] fix: scalar - array subtracts the array from the scalar

the operator returned array - scalar
---
 src/array_functions.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/array_functions.hpp b/src/array_functions.hpp
index 92d659f..00c8f17 100644
--- a/src/array_functions.hpp
+++ b/src/array_functions.hpp
@@ -98,10 +98,18 @@ operator X (const R b, const A<T>& a){\
   return out;\
 }
 SCALAR_ARRAY_OP(+,+=)
-SCALAR_ARRAY_OP(-,-=)
 SCALAR_ARRAY_OP(*,*=)
 #undef SCALAR_ARRAY_OP
 
+// scalar - any derived bArray<T>: subtraction does not commute
+template<class T, class R, template<class> class A, class S = std::common_type_t<T,R>>
+std::enable_if_t<isArray<T,A>, A<S>>
+operator - (const R b, const A<T>& a){
+  A<S> out = A<S>(a).decouple();
+  for (auto & x: out.valItr()) x = static_cast<S>(b) - x;
+  return out;
+}
+
 // any derived bArray<T> with a copy constructor [+-*/] std::array<R,N>
 // broadcasts the std::array but only if N matches the size of the last dimension of the bArray
 #define ARRAY_STDA_OP(X,Y) template<class T, template<class> class A, class R, class S = std::common_type_t<T,R>, size_t Nel>\
-- 
2.43.0


From 03645729a0b369bb90ac8e363734952b98136140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:40 +0000
Subject: [PATCH 15/38] fix: read-only arrays refuse set, swap, permute and
 lattice-vector in-place operators

---
 src/array.tpp      | 7 +++++++
 src/array2.tpp     | 7 +++++++
 src/array_lvec.hpp | 2 ++
 3 files changed, 16 insertions(+)

diff --git a/src/array.tpp b/src/array.tpp
index 0dae5e6..c294097 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -170,6 +170,7 @@ Array<T>::extract(const std::vector<bool>& i) const {
 
 template<class T>
 bool Array<T>::set(const ind_t i, const Array<T>& in){
+  if (!this->ismutable()) throw std::runtime_error("Immutable Arrays can not be modified");
   // we might be able to do this better/faster if we both *this and in
   // have the same strides_ and we account for any offset. For now calculate
   // the 'hard' way no matter what:
@@ -189,6 +190,7 @@ bool Array<T>::set(const ind_t i, const Array<T>& in){
 template<class T>
 template<class R>
 bool Array<T>::set(const ind_t i, const Array<R>& in){
+  if (!this->ismutable()) throw std::runtime_error("Immutable Arrays can not be modified");
   // we might be able to do this better/faster if we both *this and in
   // have the same strides_ and we account for any offset. For now calculate
   // the 'hard' way no matter what:
@@ -207,6 +209,7 @@ bool Array<T>::set(const ind_t i, const Array<R>& in){
 
 template<class T>
 bool Array<T>::set(const ind_t i, const std::vector<T>& in){
+  if (!this->ismutable()) throw std::runtime_error("Immutable Arrays can not be modified");
   if (this->numel() != _shape[0]*in.size())
     throw std::runtime_error("Set requires the correct number of elements");
   shape_t tsize = this->shape();
@@ -223,6 +226,7 @@ bool Array<T>::set(const ind_t i, const std::vector<T>& in){
 template<class T>
 template<size_t Nel>
 bool Array<T>::set(const ind_t i, const std::array<T, Nel>& in){
+  if (!this->ismutable()) throw std::runtime_error("Immutable Arrays can not be modified");
   if (this->numel() != _shape[0]*Nel)
     throw std::runtime_error("Set requires the correct number of elements");
   shape_t tsize = this->shape();
@@ -238,6 +242,7 @@ bool Array<T>::set(const ind_t i, const std::array<T, Nel>& in){
 
 template<class T>
 T Array<T>::set(const shape_t& sub, const T in){
+  if (!this->ismutable()) throw std::runtime_error("Immutable Arrays can not be modified");
   auto ind = this->s2l_d(sub);
   _data[ind] = in;
   return _data[ind];
@@ -906,6 +911,7 @@ void Array<T>::permute(std::vector<I>& p){
 
 template<class T>
 bool Array<T>::swap(const ind_t a, const ind_t b){
+  if (!this->ismutable()) throw std::runtime_error("Immutable Arrays can not be modified");
   assert(a<_shape[0] && b<_shape[0]);
   shape_t sub{_shape};
   sub[0] = a; // fix the 0th index to 'a' in the iterator
@@ -926,6 +932,7 @@ bool Array<T>::swap(const ind_t a, const ind_t b){
 }
 template<class T>
 bool Array<T>::swap(ind_t i, ind_t a, ind_t b){
+  if (!this->ismutable()) throw std::runtime_error("Immutable Arrays can not be modified");
   assert(this->ndim() == 2 && i < _shape[0] && a < _shape[1] && b < _shape[1]);
   shape_t ia{i,a}, ib{i,b};
   T store = _data[this->s2l_d(ia)];
diff --git a/src/array2.tpp b/src/array2.tpp
index ceba019..e76e1ad 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -171,6 +171,7 @@ Array2<T>::extract(const std::vector<bool>& i) const {
 
 template<class T>
 bool Array2<T>::set(const ind_t i, const Array2<T>& in){
+  mutable_check(*this);
   // we might be able to do this better/faster if we both *this and in
   // have the same strides_ and we account for any offset. For now calculate
   // the 'hard' way no matter what:
@@ -189,6 +190,7 @@ bool Array2<T>::set(const ind_t i, const Array2<T>& in){
 template<class T>
 template<class R>
 bool Array2<T>::set(const ind_t i, const Array2<R>& in){
+  mutable_check(*this);
   // we might be able to do this better/faster if we both *this and in
   // have the same strides_ and we account for any offset. For now calculate
   // the 'hard' way no matter what:
@@ -206,6 +208,7 @@ bool Array2<T>::set(const ind_t i, const Array2<R>& in){
 
 template<class T>
 bool Array2<T>::set(const ind_t i, const std::vector<T>& in){
+  mutable_check(*this);
   if (this->numel() != _shape[0]*in.size())
     throw std::runtime_error("Set requires the correct number of elements");
   shape_t tsize = this->shape();
@@ -222,6 +225,7 @@ bool Array2<T>::set(const ind_t i, const std::vector<T>& in){
 template<class T>
 template<size_t Nel>
 bool Array2<T>::set(const ind_t i, const std::array<T, Nel>& in){
+  mutable_check(*this);
   if (this->numel() != _shape[0]*Nel)
     throw std::runtime_error("Set requires the correct number of elements");
   shape_t tsize = this->shape();
@@ -237,6 +241,7 @@ bool Array2<T>::set(const ind_t i, const std::array<T, Nel>& in){
 
 template<class T>
 T Array2<T>::set(const shape_t& sub, const T in){
+  mutable_check(*this);
   auto ind = this->s2l_d(sub);
   _data[ind] = in;
   return _data[ind];
@@ -1080,6 +1085,7 @@ std::vector<ind_t> Array2<T>::permutation_vector(const Array2<R>& other, const T
 
 template<class T>
 bool Array2<T>::swap(const ind_t a, const ind_t b){
+  mutable_check(*this);
   assert(a<_shape[0] && b<_shape[0]);
   shape_t sub{_shape};
   sub[0] = a; // fix the 0th index to 'a' in the iterator
@@ -1099,6 +1105,7 @@ bool Array2<T>::swap(const ind_t a, const ind_t b){
 }
 template<class T>
 bool Array2<T>::swap(ind_t i, ind_t a, ind_t b){
+  mutable_check(*this);
   assert(i < _shape[0] && a < _shape[1] && b < _shape[1]);
   auto la{this->ij2l_d(i,a)}, lb{this->ij2l_d(i,b)};
   T _store_ = _data[la];
diff --git a/src/array_lvec.hpp b/src/array_lvec.hpp
index 263f347..86451d9 100644
--- a/src/array_lvec.hpp
+++ b/src/array_lvec.hpp
@@ -55,6 +55,7 @@ bool equal_shapes(const std::array<T,Nel>& a, const std::array<T,Nel>&b){
 #define LVEC_SCALAR_INPLACE_OP_DEF(L,X) \
 L <T>&\
 operator X (const T& v){\
+  mutable_check(*this);\
   for (auto x: this->subItr()) this->_data[this->s2l_d(x)] X v;\
   return *this;\
 }
@@ -62,6 +63,7 @@ operator X (const T& v){\
 template<template<class> class A>\
 std::enable_if_t<isArray<T,A>, L <T>>&\
 operator X (const A<T>& b){\
+  mutable_check(*this);\
   auto itr = this->broadcastItr(b.shape());\
   if (!equal_shapes(itr.shape(), this->shape())) { \
     std::string msg="Incompatible shaped " + std::string(#L) + " arrays ";  \
-- 
2.43.0


From 43c9336a33af0b1132de32e6d2bf878ea2fae832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:40 +0000
Subject: [PATCH 16/38] fix: the buffer of a mutable Array is writable and that
 of a read-only one is not

---
 wrap/_array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrap/_array.hpp b/wrap/_array.hpp
index e20b8c0..698591e 100644
--- a/wrap/_array.hpp
+++ b/wrap/_array.hpp
@@ -164,7 +164,7 @@ void declare_array(pybind11::module &m, const std::string &typestr){
   //buffer_info
   cls.def_buffer([](Class &cobj) -> pybind11::buffer_info {
     // return brille::a2bi(cobj);
-    return pybind11::buffer_info(cobj.data(), cobj.shape(), cobj.cstride(), cobj.ismutable());
+    return pybind11::buffer_info(cobj.data(), cobj.shape(), cobj.cstride(), !cobj.ismutable());
   });
   //initializer(s):
   cls.def(pybind11::init<const std::vector<ind_t>&>(),"shape"_a);
@@ -193,7 +193,7 @@ void declare_array2(pybind11::module &m, const std::string &typestr){
     std::vector<pybind11::ssize_t> shape, cstride;
     for (auto s: cobj.shape()) shape.push_back(static_cast<pybind11::ssize_t>(s));
     for (auto s: cobj.cstride()) cstride.push_back(static_cast<pybind11::ssize_t>(s));
-    return pybind11::buffer_info(cobj.data(), shape, cstride, cobj.ismutable());
+    return pybind11::buffer_info(cobj.data(), shape, cstride, !cobj.ismutable());
   });
   //initializer(s):
   cls.def(pybind11::init<const std::array<ind_t,2>&>(),"shape"_a);
-- 
2.43.0


From f2c11f4448ebe69bbcfa31e150d504d1cfeaeac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:53 +0000
Subject: [PATCH 17/38] fix: two NullNodes are not unequal

---
 src/trellis_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trellis_node.hpp b/src/trellis_node.hpp
index 2942ab3..a247577 100644
--- a/src/trellis_node.hpp
+++ b/src/trellis_node.hpp
@@ -48,7 +48,7 @@ namespace brille {
     template<class R>
     static std::enable_if_t<std::is_base_of_v<HighFive::Object, R>, NullNode>
     from_hdf(R&, const std::string&) {return NullNode();}
-    bool operator!=(const NullNode&) const { return true; }
+    bool operator!=(const NullNode&) const { return false; }
 
   private:
     /*
-- 
2.43.0


From 262a793d090dd6c283a5a36796752484ea2339c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:52 +0000
Subject: [PATCH 18/38] fix: SubIt and SubIt2 pointer constructors name the
 member _first

---
 src/subscript.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/subscript.hpp b/src/subscript.hpp
index 8a5598c..76e1371 100644
--- a/src/subscript.hpp
+++ b/src/subscript.hpp
@@ -135,7 +135,7 @@ public:
   : _shape(o._shape), _inpt(o._inpt), _sub(o._sub), _fixed(o._fixed), _first(o._first)
   {}
   explicit SubIt(const SubIt<T>* o)
-  : _shape(o->_shape), _inpt(o->_inpt), _sub(o->_sub), _fixed(o->_fixed), _first(o->first)
+  : _shape(o->_shape), _inpt(o->_inpt), _sub(o->_sub), _fixed(o->_fixed), _first(o->_first)
   {}
 
   SubIt& operator=(const SubIt<T>& o){
@@ -250,7 +250,7 @@ public:
   : _shape(o._shape), _inpt(o._inpt), _sub(o._sub), _fixed(o._fixed), _first(o._first)
   {}
   explicit SubIt2(const SubIt2<T>* o)
-  : _shape(o->_shape), _inpt(o->_inpt), _sub(o->_sub), _fixed(o->_fixed), _first(o->first)
+  : _shape(o->_shape), _inpt(o->_inpt), _sub(o->_sub), _fixed(o->_fixed), _first(o->_first)
   {}
 
   SubIt2& operator=(const SubIt2<T>& o){
-- 
2.43.0


From a236becfc6e1ce9398ddc001117365626030082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:52 +0000
Subject: [PATCH 19/38] fix: copies of a Mesh3 keep its approximation settings

---
 src/mesh.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index dd33755..71ed635 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -85,6 +85,7 @@ public:
   Mesh3(const class_t& other){
     this->mesh = other.mesh;
     this->data_ = other.data_;
+    this->approx_ = other.approx_;
   }
   //Mesh3(TetTri  m, const data_t& d): mesh(std::move(m)), data_(d) {}
   Mesh3(mesh_t m, data_t d, approx_t a): mesh(std::move(m)), data_(std::move(d)), approx_(a) {}
@@ -93,6 +94,7 @@ public:
   auto& operator=(const class_t& other){
     this->mesh = other.mesh;
     this->data_ = other.data_;
+    this->approx_ = other.approx_;
     return *this;
   }
   [[nodiscard]] approx_t approx_config() const {return approx_;}
-- 
2.43.0


From b7108d786c131636bc7d7c21544bb53ba74e4b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:11 +0000
Subject: [PATCH 20/38] fix: apply_inverse_permutation puts the popped object
 back

---
 src/permutation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permutation.hpp b/src/permutation.hpp
index 419597d..de7b9ee 100644
--- a/src/permutation.hpp
+++ b/src/permutation.hpp
@@ -809,7 +809,7 @@ apply_inverse_permutation(ObjItr objects, ObjItr end, PermItr indices){
     objects[indices[i]] = std::move(objects[i]);
     indices[indices[i]] = indices[i];
     // and put the popped object and index back in here
-    objects[i] = std::move(pop_idx);
+    objects[i] = std::move(pop_obj);
     indices[i] = pop_idx;
   }
 }
-- 
2.43.0


From 5a136b682a2ac90cc0719d2ec7e0483f5d613d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:31 +0000
Subject: [PATCH 21/38] fix: create_grid makes a complex-valued grid whenever
 complex_values is set

---
 brille/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brille/utils.py b/brille/utils.py
index 6fa6d99..2749a29 100644
--- a/brille/utils.py
+++ b/brille/utils.py
@@ -299,7 +299,8 @@ def create_grid(
         )
 
     def constructor(grid_type):
-        if complex_values and complex_vectors:
+        if complex_values:
+            # there is no grid of complex values and real vectors
             return getattr(_brille, grid_type + "cc")
         elif complex_vectors:
             return getattr(_brille, grid_type + "dc")
-- 
2.43.0


From bf5157f9c2967c0b7ad0d8c1e850dcdaaa5f77af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:31 +0000
Subject: [PATCH 22/38] fix: Lattice accepts symmetry as a CIF xyz encoded
 string

---
 brille/lattice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/brille/lattice.py b/brille/lattice.py
index 108eba5..60f837a 100644
--- a/brille/lattice.py
+++ b/brille/lattice.py
@@ -1,4 +1,6 @@
 def _t(args):
+    if isinstance(args, str):
+        return (args,)
     return args if isinstance(args, tuple) else tuple(args)
 
 
-- 
2.43.0


From 6a9f4c3ae11a1c95c6f7dad12aafcea465da1ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:46 +0000
Subject: [PATCH 23/38] fix: write diagnostics through the logger, which can be
 silenced

---
 src/interpolator_gamma.tpp    |  2 +-
 src/permutation.hpp           |  2 +-
 src/smp.hpp                   |  3 ++-
 src/trellis_poly_parallel.tpp | 10 +++++-----
 src/vertex_map_set.h          |  2 +-
 5 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/interpolator_gamma.tpp b/src/interpolator_gamma.tpp
index c45db2e..b662e5c 100644
--- a/src/interpolator_gamma.tpp
+++ b/src/interpolator_gamma.tpp
@@ -66,7 +66,7 @@ bool Interpolator<T>::rip_gamma_complex(
   // for Γ transformations of tensors, there *must* be N×N in total:
   ind_t Nmat = static_cast<ind_t>(std::sqrt(no[2]))/3;
   if (no[2] != 9*Nmat*Nmat){
-    std::cout << "Atomic displacement Gamma transformation requires NxN 3x3 tensors!" << std::endl;
+    info_update("Atomic displacement Gamma transformation requires NxN 3x3 tensors!");
     return false;
   }
   const ind_t b_{this->branches()}, s_{this->branch_span()};
diff --git a/src/permutation.hpp b/src/permutation.hpp
index de7b9ee..9ef21c6 100644
--- a/src/permutation.hpp
+++ b/src/permutation.hpp
@@ -705,7 +705,7 @@ for (size_t i=0; i<Nobj; ++i){
         case 1: v_cost =  brille::utils::vector_distance(Nel[1], c_i, n_j); break;
         case 2: v_cost = 1-brille::utils::vector_product(Nel[1], c_i, n_j); break;
         case 3: v_cost =     brille::utils::vector_angle(Nel[2], c_i, n_j); break;
-        default: std::cout << "Unknown vector cost function. None used." << std::endl;
+        default: info_update("Unknown vector cost function. None used.");
       }
       c_i += Nel[1];
       n_j += Nel[1];
diff --git a/src/smp.hpp b/src/smp.hpp
index f9c28c2..2c430d4 100644
--- a/src/smp.hpp
+++ b/src/smp.hpp
@@ -25,6 +25,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
     \brief A function to solve the Stable Marriage Problem
 */
 #include <iostream>
+#include "debug.hpp"
 namespace brille::assignment {
 
 #ifndef DOXYGEN_SHOULD_SKIP_THIS
@@ -160,7 +161,7 @@ int smp(const T dim, const P *restrict prefs, T *restrict rsol, T *restrict csol
   bool ok=true;
   for (size_t i=0; i<dim; ++i) ok &= rmatched[i] && cmatched[i];
   if (!ok){
-    std::cout << "Not all matches found?!" << std::endl;
+    info_update("Not all matches found?!");
   }
   if (verbose){
     std::cout << "Matches are:" << std::endl;
diff --git a/src/trellis_poly_parallel.tpp b/src/trellis_poly_parallel.tpp
index 1dbec3f..4cf3ead 100644
--- a/src/trellis_poly_parallel.tpp
+++ b/src/trellis_poly_parallel.tpp
@@ -369,7 +369,7 @@ PolyTrellis<T,R,S,A>::part_two(
   // Handle all polyhedron nodes (this almost certainly needs to be parallel)
   ind_t fatal_tri{0}, fatal_miss{0}, fatal_match{0}, hiccups{0};
   auto p_count = utils::u2s<long long>(poly_indexes.size());
-#pragma omp parallel for default(none) shared(std::cout, n_kept, poly_stash, poly_indexes, p_count, node_index_map, s_tol, d_tol) reduction(+:fatal_tri, fatal_miss, fatal_match, hiccups)
+#pragma omp parallel for default(none) shared(brille::printer, n_kept, poly_stash, poly_indexes, p_count, node_index_map, s_tol, d_tol) reduction(+:fatal_tri, fatal_miss, fatal_match, hiccups)
   for (long long s_i=0; s_i<p_count; ++s_i) {
     auto i = poly_indexes[utils::s2u<ind_t>(s_i)];
     //
@@ -407,10 +407,10 @@ PolyTrellis<T,R,S,A>::part_two(
       auto no = known.count();
       if (no){
         if (no > 1){
-          std::cout << trij << " matches\n" << cat(1, known, node_verts) << no << " times?!" << std::endl;
-//          for (const auto & x: node_index_map.get(i)) std::cout << " " << x.first << x.second;
-          for (const auto & x: node_index_map.get(i)) std::cout << " " << x.second;
-          std::cout << std::endl;
+          std::ostringstream duplicated;
+          duplicated << trij << " matches\n" << cat(1, known, node_verts) << no << " times?!\n";
+          for (const auto & x: node_index_map.get(i)) duplicated << " " << x.second;
+          info_update(duplicated.str());
           fatal_match += 1;
         }
         //local_map.push_back(poly_vert_idx[known.first()]);
diff --git a/src/vertex_map_set.h b/src/vertex_map_set.h
index f6c725d..f41bcbe 100644
--- a/src/vertex_map_set.h
+++ b/src/vertex_map_set.h
@@ -116,7 +116,7 @@ private:
     auto equals = appended_.row_is(brille::cmp::eq, vertex, relative_, relative_, digits_);
     auto count = (appended_count_ > 0 ? equals.count(appended_count_) : 0); // avoid matching uninitialized entries beyond appended_count_
     if (count > 1) {
-      std::cout << vertex << " has " << count << " matches in first " << appended_count_ << " entries of \n" << appended_ << " but only 1 expected" << std::endl;
+      info_update(vertex.to_string(), " has ", count, " matches in first ", appended_count_, " entries of \n", appended_.to_string(), " but only 1 expected");
       throw std::runtime_error("Too many extra matches to vertex!");
     }
 //    return count ? std::make_tuple(true, pristine_count() + equals.first(appended_count_)) : std::make_tuple(false, ind_t(0));
-- 
2.43.0


From d78816b8524814d4f011e34c3de7ea004293189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:30 +0000
Subject: [PATCH 24/38] fix: give a default constructed Motion a value

---
 src/motion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/motion.hpp b/src/motion.hpp
index 8c47988..bde966e 100644
--- a/src/motion.hpp
+++ b/src/motion.hpp
@@ -25,8 +25,8 @@ vectors, and axial vectors, as well as the correct multiplication of symmetry
 operations.
 */
     template<class R, class T> class Motion{
-        Matrix<R> W;
-        Vector<T> w;
+        Matrix<R> W{};
+        Vector<T> w{};
     public:
         Motion() = default;
         Motion(Matrix<R> X, Vector<T> x): W(std::move(X)), w(std::move(x)) {}
-- 
2.43.0


From 275f3d3ffdf1418e38dd1f7e511f9a93d1197f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:30 +0000
Subject: [PATCH 25/38] fix: an empty LQPolyTet counts no tetrahedra

---
 src/triangulation_poly.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triangulation_poly.hpp b/src/triangulation_poly.hpp
index 1b30221..146a02c 100644
--- a/src/triangulation_poly.hpp
+++ b/src/triangulation_poly.hpp
@@ -142,7 +142,7 @@ tetrahedra indexing is collected before freeing the TetGet structure.
 */
 template<class T, template<class> class A>
 class LQPolyTet{
-  int extra_;
+  int extra_{0};
   A<T> points_;   /*!< The triangulated vertex positions */ // (nVertices, 3)
   bArray<ind_t> tetrahedra_; /*!< The vertices in each of the triangulated tetrahedra */ // (nTetrahedra, 4)
 public:
-- 
2.43.0


From 1a3ae381582374077610565d9440582043be080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:30 +0000
Subject: [PATCH 26/38] fix: an unneeded GammaTable has no atoms and no
 operations

---
 src/phonon.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phonon.hpp b/src/phonon.hpp
index 64822d8..ca6fe14 100644
--- a/src/phonon.hpp
+++ b/src/phonon.hpp
@@ -103,7 +103,7 @@ private:
   lattice_t lattice_;
   bArray<double> vectors_; //! element v is (Rᵣ⁻¹ ⃗rₖ - ⃗rₗ)
 public:
-  GammaTable(bool init, const lattice_t& dlat, const int time_reversal=0, double e_tol=0., int n_tol=1): lattice_(dlat) {
+  GammaTable(bool init, const lattice_t& dlat, const int time_reversal=0, double e_tol=0., int n_tol=1): n_atoms(0), n_sym_ops(0), lattice_(dlat) {
     if (init){
       this->construct(dlat, time_reversal, e_tol, n_tol);
     } else {
-- 
2.43.0


From b243bb96bac6e4957a03e46c64849093477af19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:30 +0000
Subject: [PATCH 27/38] fix: Interpolator made from cost functions gives its
 function types a value

---
 src/interpolator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index 7fcba0b..a802241 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -131,7 +131,7 @@ public:
   */
   Interpolator(costfun_t scf, costfun_t vcf)
   : data_(0,0), _elements({{0,0,0}}), rotlike_{RotatesLike::vector}, lenunit_{LengthUnit::real_lattice},
-    _costmult({{1,1,1}}), _scalarfun(scf), _vectorfun(vcf)
+    _costmult({{1,1,1}}), _funtype({{0,0,0}}), _scalarfun(scf), _vectorfun(vcf)
   {}
   /*! \brief Partial constructor with default cost functions
 
-- 
2.43.0


From c23ac58c26132c00ef2b87fb61bfe6eec1e25cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:30 +0000
Subject: [PATCH 28/38] fix: Array2 from an empty Array has no data

---
 src/array2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2.hpp b/src/array2.hpp
index 7e2abcf..7c36dd2 100644
--- a/src/array2.hpp
+++ b/src/array2.hpp
@@ -220,7 +220,7 @@ public:
 
   // Construct an Array2 from an Array, unravelling higher dimensions
   Array2(const Array<T>& nd)
-  : _num(0u), _shift(0u), _shape({0,1}), _stride({1,1})
+  : _data(nullptr), _num(0u), _shift(0u), _own(false), _mutable(false), _shape({0,1}), _stride({1,1})
   {
     // we always want to construct contiguous row-ordered arrays
     if (nd.ndim()>0){
-- 
2.43.0


From 825d0287273f9c4da97723cf57f018536624fd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:58 +0000
Subject: [PATCH 29/38] fix: Interpolator keeps the vector cost type in the
 vector place, where the file reader looks for it

---
 src/interpolator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index a802241..02188b2 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -260,28 +260,28 @@ public:
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
         return brille::utils::vector_distance(n, i, j);
       };
-      _funtype[0] = 1;
+      _funtype[1] = 1;
       break;
       case 2:
       debug_update("selecting 1-brille::utils::vector_product");
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
         return 1-brille::utils::vector_product(n, i, j);
       };
-      _funtype[0] = 2;
+      _funtype[1] = 2;
       break;
       case 3:
       debug_update("selecting brille::utils::vector_angle");
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
         return brille::utils::vector_angle(n, i, j);
       };
-      _funtype[0] = 3;
+      _funtype[1] = 3;
       break;
       case 4:
       debug_update("selecting brille::utils::hermitian_angle");
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
          return brille::utils::hermitian_angle(n,i,j);
       };
-      _funtype[0] = 4;
+      _funtype[1] = 4;
       break;
       default:
       debug_update("selecting sin**2(brille::utils::hermitian_angle)");
-- 
2.43.0


From fd04d74a75d4c99d75f8598f5b241e58913e8ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:20 +0000
Subject: [PATCH 30/38] fix: PolyTrellis::part_two replaced vertices_ while
 other threads read and replaced it

---
 src/trellis_poly_parallel.tpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/trellis_poly_parallel.tpp b/src/trellis_poly_parallel.tpp
index 4cf3ead..e3d737c 100644
--- a/src/trellis_poly_parallel.tpp
+++ b/src/trellis_poly_parallel.tpp
@@ -369,13 +369,15 @@ PolyTrellis<T,R,S,A>::part_two(
   // Handle all polyhedron nodes (this almost certainly needs to be parallel)
   ind_t fatal_tri{0}, fatal_miss{0}, fatal_match{0}, hiccups{0};
   auto p_count = utils::u2s<long long>(poly_indexes.size());
-#pragma omp parallel for default(none) shared(brille::printer, n_kept, poly_stash, poly_indexes, p_count, node_index_map, s_tol, d_tol) reduction(+:fatal_tri, fatal_miss, fatal_match, hiccups)
+  // any thread might replace vertices_ to add a vertex, the known vertices are used through a separate handle
+  auto known_vertices = vertices_;
+#pragma omp parallel for default(none) shared(brille::printer, n_kept, poly_stash, poly_indexes, p_count, node_index_map, known_vertices, s_tol, d_tol) reduction(+:fatal_tri, fatal_miss, fatal_match, hiccups)
   for (long long s_i=0; s_i<p_count; ++s_i) {
     auto i = poly_indexes[utils::s2u<ind_t>(s_i)];
     //
-    auto Gamma = 0 * vertices_.view(0);
+    auto Gamma = 0 * known_vertices.view(0);
     // combine the vertex indexes for preserved (kept pristine) and appended
-    auto node_verts = vertices_.extract(node_index_map.decode(n_kept, i));
+    auto node_verts = known_vertices.extract(node_index_map.decode(n_kept, i));
 
     // get a reference the stashed Polyhedron from before:
     const auto & this_node{poly_stash.at(i)};
@@ -416,6 +418,9 @@ PolyTrellis<T,R,S,A>::part_two(
         //local_map.push_back(poly_vert_idx[known.first()]);
         local_map.push_back(node_index_map.decode(n_kept, i, known.first()));
       } else {
+        // only one thread at a time may look through and add to vertices_
+#pragma omp critical(trellis_vertices)
+        {
         auto punt = vertices_.row_is(brille::cmp::eq, trij, s_tol, s_tol, d_tol);
         if (punt.count() < 1 && added_in_triangulation > 0){
           // we've *ADDED* a new point to the triangulation, so we need to
@@ -429,6 +434,7 @@ PolyTrellis<T,R,S,A>::part_two(
           }
           local_map.push_back(punt.first());
         }
+        }
       }
     }
 
-- 
2.43.0


From e93dc369adbf009486e9e810d2b2d9a22b5841ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:20 +0000
Subject: [PATCH 31/38] fix: BrillouinZone::isinside_wedge wrote elements of
 one std::vector<bool> from several threads

---
 src/bz.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bz.hpp b/src/bz.hpp
index 470f858..4986833 100644
--- a/src/bz.hpp
+++ b/src/bz.hpp
@@ -691,11 +691,14 @@ public:
       // so when identifying whether a point is inside of the irreducible
       // Brillouin zone we must allow for the ≤0 case as well.
       cmp c = pos || no_ir_mirroring ? cmp::ge : cmp::le_ge;
-#pragma omp parallel for default(none) shared(out, normals, p, c)              \
+      // neighbouring elements of a std::vector<bool> can not be written at once
+      std::vector<unsigned char> inside(p.size(0), 1u);
+#pragma omp parallel for default(none) shared(inside, normals, p, c)           \
     schedule(dynamic)
       for (long long i = 0; i < p.size(0); ++i) // separately changed to ind_t
         //TODO Add tolerance here?
-        out[i] = dot(normals, p.view(i)).all(c, 0.);
+        inside[i] = dot(normals, p.view(i)).all(c, 0.) ? 1u : 0u;
+      out.assign(inside.begin(), inside.end());
     }
     return out;
   }
-- 
2.43.0


From 2cb830e5b7358547df4cb77af436ac79552cd35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:28 +0000
Subject: [PATCH 32/38] fix: give the B-face centred spacegroup settings their
 B centring

---
 src/spg_database.cpp | 80 ++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index a158e4f..81b31b4 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -89,9 +89,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  5, "C2^3"  , "A 2y"            , "C 2 = A 1 2 1"                  , "A 1 2 1"            , "C2"        , "b2"   , Bravais::A,  3,  10},
   {  5, "C2^3"  , "I 2y"            , "C 2 = I 1 2 1"                  , "I 1 2 1"            , "C2"        , "b3"   , Bravais::I,  3,  11},
   {  5, "C2^3"  , "A 2"             , "C 2 = A 1 1 2"                  , "A 1 1 2"            , "C2"        , "c1"   , Bravais::A,  3,  12},
-  {  5, "C2^3"  , "B 2"             , "C 2 = B 1 1 2 = B 2"            , "B 1 1 2"            , "C2"        , "c2"   , Bravais::P,  3,  13},
+  {  5, "C2^3"  , "B 2"             , "C 2 = B 1 1 2 = B 2"            , "B 1 1 2"            , "C2"        , "c2"   , Bravais::B,  3,  13},
   {  5, "C2^3"  , "I 2"             , "C 2 = I 1 1 2"                  , "I 1 1 2"            , "C2"        , "c3"   , Bravais::I,  3,  14},
-  {  5, "C2^3"  , "B 2x"            , "C 2 = B 2 1 1"                  , "B 2 1 1"            , "C2"        , "a1"   , Bravais::P,  3,  15},
+  {  5, "C2^3"  , "B 2x"            , "C 2 = B 2 1 1"                  , "B 2 1 1"            , "C2"        , "a1"   , Bravais::B,  3,  15},
   {  5, "C2^3"  , "C 2x"            , "C 2 = C 2 1 1"                  , "C 2 1 1"            , "C2"        , "a2"   , Bravais::C,  3,  16},
   {  5, "C2^3"  , "I 2x"            , "C 2 = I 2 1 1"                  , "I 2 1 1"            , "C2"        , "a3"   , Bravais::I,  3,  17},
   {  6, "Cs^1"  , "P -2y"           , "P m = P 1 m 1"                  , "P 1 m 1"            , "Pm"        , "b"    , Bravais::P,  4,  18},
@@ -110,9 +110,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  8, "Cs^3"  , "A -2y"           , "C m = A 1 m 1"                  , "A 1 m 1"            , "Cm"        , "b2"   , Bravais::A,  4,  31},
   {  8, "Cs^3"  , "I -2y"           , "C m = I 1 m 1"                  , "I 1 m 1"            , "Cm"        , "b3"   , Bravais::I,  4,  32},
   {  8, "Cs^3"  , "A -2"            , "C m = A 1 1 m"                  , "A 1 1 m"            , "Cm"        , "c1"   , Bravais::A,  4,  33},
-  {  8, "Cs^3"  , "B -2"            , "C m = B 1 1 m = B m"            , "B 1 1 m"            , "Cm"        , "c2"   , Bravais::P,  4,  34},
+  {  8, "Cs^3"  , "B -2"            , "C m = B 1 1 m = B m"            , "B 1 1 m"            , "Cm"        , "c2"   , Bravais::B,  4,  34},
   {  8, "Cs^3"  , "I -2"            , "C m = I 1 1 m"                  , "I 1 1 m"            , "Cm"        , "c3"   , Bravais::I,  4,  35},
-  {  8, "Cs^3"  , "B -2x"           , "C m = B m 1 1"                  , "B m 1 1"            , "Cm"        , "a1"   , Bravais::P,  4,  36},
+  {  8, "Cs^3"  , "B -2x"           , "C m = B m 1 1"                  , "B m 1 1"            , "Cm"        , "a1"   , Bravais::B,  4,  36},
   {  8, "Cs^3"  , "C -2x"           , "C m = C m 1 1"                  , "C m 1 1"            , "Cm"        , "a2"   , Bravais::C,  4,  37},
   {  8, "Cs^3"  , "I -2x"           , "C m = I m 1 1"                  , "I m 1 1"            , "Cm"        , "a3"   , Bravais::I,  4,  38},
   {  9, "Cs^4"  , "C -2yc"          , "C c = C 1 c 1"                  , "C 1 c 1"            , "Cc"        , "b1"   , Bravais::C,  4,  39},
@@ -122,16 +122,16 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  9, "Cs^4"  , "C -2ybc"         , "C c = C 1 n 1"                  , "C 1 n 1"            , "Cc"        , "-b2"  , Bravais::C,  4,  43},
   {  9, "Cs^4"  , "I -2yc"          , "C c = I 1 c 1"                  , "I 1 c 1"            , "Cc"        , "-b3"  , Bravais::I,  4,  44},
   {  9, "Cs^4"  , "A -2a"           , "C c = A 1 1 a"                  , "A 1 1 a"            , "Cc"        , "c1"   , Bravais::A,  4,  45},
-  {  9, "Cs^4"  , "B -2bc"          , "C c = B 1 1 n"                  , "B 1 1 n"            , "Cc"        , "c2"   , Bravais::P,  4,  46},
+  {  9, "Cs^4"  , "B -2bc"          , "C c = B 1 1 n"                  , "B 1 1 n"            , "Cc"        , "c2"   , Bravais::B,  4,  46},
   {  9, "Cs^4"  , "I -2b"           , "C c = I 1 1 b"                  , "I 1 1 b"            , "Cc"        , "c3"   , Bravais::I,  4,  47},
-  {  9, "Cs^4"  , "B -2b"           , "C c = B 1 1 b = B b"            , "B 1 1 b"            , "Cc"        , "-c1"  , Bravais::P,  4,  48},
+  {  9, "Cs^4"  , "B -2b"           , "C c = B 1 1 b = B b"            , "B 1 1 b"            , "Cc"        , "-c1"  , Bravais::B,  4,  48},
   {  9, "Cs^4"  , "A -2ac"          , "C c = A 1 1 n"                  , "A 1 1 n"            , "Cc"        , "-c2"  , Bravais::A,  4,  49},
   {  9, "Cs^4"  , "I -2a"           , "C c = I 1 1 a"                  , "I 1 1 a"            , "Cc"        , "-c3"  , Bravais::I,  4,  50},
-  {  9, "Cs^4"  , "B -2xb"          , "C c = B b 1 1"                  , "B b 1 1"            , "Cc"        , "a1"   , Bravais::P,  4,  51},
+  {  9, "Cs^4"  , "B -2xb"          , "C c = B b 1 1"                  , "B b 1 1"            , "Cc"        , "a1"   , Bravais::B,  4,  51},
   {  9, "Cs^4"  , "C -2xbc"         , "C c = C n 1 1"                  , "C n 1 1"            , "Cc"        , "a2"   , Bravais::C,  4,  52},
   {  9, "Cs^4"  , "I -2xc"          , "C c = I c 1 1"                  , "I c 1 1"            , "Cc"        , "a3"   , Bravais::I,  4,  53},
   {  9, "Cs^4"  , "C -2xc"          , "C c = C c 1 1"                  , "C c 1 1"            , "Cc"        , "-a1"  , Bravais::C,  4,  54},
-  {  9, "Cs^4"  , "B -2xbc"         , "C c = B n 1 1"                  , "B n 1 1"            , "Cc"        , "-a2"  , Bravais::P,  4,  55},
+  {  9, "Cs^4"  , "B -2xbc"         , "C c = B n 1 1"                  , "B n 1 1"            , "Cc"        , "-a2"  , Bravais::B,  4,  55},
   {  9, "Cs^4"  , "I -2xb"          , "C c = I b 1 1"                  , "I b 1 1"            , "Cc"        , "-a3"  , Bravais::I,  4,  56},
   { 10, "C2h^1" , "-P 2y"           , "P 2/m = P 1 2/m 1"              , "P 1 2/m 1"          , "P2/m"      , "b"    , Bravais::P,  5,  57},
   { 10, "C2h^1" , "-P 2"            , "P 2/m = P 1 1 2/m"              , "P 1 1 2/m"          , "P2/m"      , "c"    , Bravais::P,  5,  58},
@@ -143,9 +143,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 12, "C2h^3" , "-A 2y"           , "C 2/m = A 1 2/m 1"              , "A 1 2/m 1"          , "C2/m"      , "b2"   , Bravais::A,  5,  64},
   { 12, "C2h^3" , "-I 2y"           , "C 2/m = I 1 2/m 1"              , "I 1 2/m 1"          , "C2/m"      , "b3"   , Bravais::I,  5,  65},
   { 12, "C2h^3" , "-A 2"            , "C 2/m = A 1 1 2/m"              , "A 1 1 2/m"          , "C2/m"      , "c1"   , Bravais::A,  5,  66},
-  { 12, "C2h^3" , "-B 2"            , "C 2/m = B 1 1 2/m = B 2/m"      , "B 1 1 2/m"          , "C2/m"      , "c2"   , Bravais::P,  5,  67},
+  { 12, "C2h^3" , "-B 2"            , "C 2/m = B 1 1 2/m = B 2/m"      , "B 1 1 2/m"          , "C2/m"      , "c2"   , Bravais::B,  5,  67},
   { 12, "C2h^3" , "-I 2"            , "C 2/m = I 1 1 2/m"              , "I 1 1 2/m"          , "C2/m"      , "c3"   , Bravais::I,  5,  68},
-  { 12, "C2h^3" , "-B 2x"           , "C 2/m = B 2/m 1 1"              , "B 2/m 1 1"          , "C2/m"      , "a1"   , Bravais::P,  5,  69},
+  { 12, "C2h^3" , "-B 2x"           , "C 2/m = B 2/m 1 1"              , "B 2/m 1 1"          , "C2/m"      , "a1"   , Bravais::B,  5,  69},
   { 12, "C2h^3" , "-C 2x"           , "C 2/m = C 2/m 1 1"              , "C 2/m 1 1"          , "C2/m"      , "a2"   , Bravais::C,  5,  70},
   { 12, "C2h^3" , "-I 2x"           , "C 2/m = I 2/m 1 1"              , "I 2/m 1 1"          , "C2/m"      , "a3"   , Bravais::I,  5,  71},
   { 13, "C2h^4" , "-P 2yc"          , "P 2/c = P 1 2/c 1"              , "P 1 2/c 1"          , "P2/c"      , "b1"   , Bravais::P,  5,  72},
@@ -173,16 +173,16 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 15, "C2h^6" , "-C 2ybc"         , "C 2/c = C 1 2/n 1"              , "C 1 2/n 1"          , "C2/c"      , "-b2"  , Bravais::C,  5,  94},
   { 15, "C2h^6" , "-I 2yc"          , "C 2/c = I 1 2/c 1"              , "I 1 2/c 1"          , "C2/c"      , "-b3"  , Bravais::I,  5,  95},
   { 15, "C2h^6" , "-A 2a"           , "C 2/c = A 1 1 2/a"              , "A 1 1 2/a"          , "C2/c"      , "c1"   , Bravais::A,  5,  96},
-  { 15, "C2h^6" , "-B 2bc"          , "C 2/c = B 1 1 2/n"              , "B 1 1 2/n"          , "C2/c"      , "c2"   , Bravais::P,  5,  97},
+  { 15, "C2h^6" , "-B 2bc"          , "C 2/c = B 1 1 2/n"              , "B 1 1 2/n"          , "C2/c"      , "c2"   , Bravais::B,  5,  97},
   { 15, "C2h^6" , "-I 2b"           , "C 2/c = I 1 1 2/b"              , "I 1 1 2/b"          , "C2/c"      , "c3"   , Bravais::I,  5,  98},
-  { 15, "C2h^6" , "-B 2b"           , "C 2/c = B 1 1 2/b = B 2/b"      , "B 1 1 2/b"          , "C2/c"      , "-c1"  , Bravais::P,  5,  99},
+  { 15, "C2h^6" , "-B 2b"           , "C 2/c = B 1 1 2/b = B 2/b"      , "B 1 1 2/b"          , "C2/c"      , "-c1"  , Bravais::B,  5,  99},
   { 15, "C2h^6" , "-A 2ac"          , "C 2/c = A 1 1 2/n"              , "A 1 1 2/n"          , "C2/c"      , "-c2"  , Bravais::A,  5, 100},
   { 15, "C2h^6" , "-I 2a"           , "C 2/c = I 1 1 2/a"              , "I 1 1 2/a"          , "C2/c"      , "-c3"  , Bravais::I,  5, 101},
-  { 15, "C2h^6" , "-B 2xb"          , "C 2/c = B 2/b 1 1"              , "B 2/b 1 1"          , "C2/c"      , "a1"   , Bravais::P,  5, 102},
+  { 15, "C2h^6" , "-B 2xb"          , "C 2/c = B 2/b 1 1"              , "B 2/b 1 1"          , "C2/c"      , "a1"   , Bravais::B,  5, 102},
   { 15, "C2h^6" , "-C 2xbc"         , "C 2/c = C 2/n 1 1"              , "C 2/n 1 1"          , "C2/c"      , "a2"   , Bravais::C,  5, 103},
   { 15, "C2h^6" , "-I 2xc"          , "C 2/c = I 2/c 1 1"              , "I 2/c 1 1"          , "C2/c"      , "a3"   , Bravais::I,  5, 104},
   { 15, "C2h^6" , "-C 2xc"          , "C 2/c = C 2/c 1 1"              , "C 2/c 1 1"          , "C2/c"      , "-a1"  , Bravais::C,  5, 105},
-  { 15, "C2h^6" , "-B 2xbc"         , "C 2/c = B 2/n 1 1"              , "B 2/n 1 1"          , "C2/c"      , "-a2"  , Bravais::P,  5, 106},
+  { 15, "C2h^6" , "-B 2xbc"         , "C 2/c = B 2/n 1 1"              , "B 2/n 1 1"          , "C2/c"      , "-a2"  , Bravais::B,  5, 106},
   { 15, "C2h^6" , "-I 2xb"          , "C 2/c = I 2/b 1 1"              , "I 2/b 1 1"          , "C2/c"      , "-a3"  , Bravais::I,  5, 107},
   { 16, "D2^1"  , "P 2 2"           , "P 2 2 2"                        , "P 2 2 2"            , "P222"      , ""     , Bravais::P,  6, 108},
   { 17, "D2^2"  , "P 2c 2"          , "P 2 2 2_1"                      , "P 2 2 2_1"          , "P222_1"    , ""     , Bravais::P,  6, 109},
@@ -194,10 +194,10 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 19, "D2^4"  , "P 2ac 2ab"       , "P 2_1 2_1 2_1"                  , "P 2_1 2_1 2_1"      , "P2_12_12_1", ""     , Bravais::P,  6, 115},
   { 20, "D2^5"  , "C 2c 2"          , "C 2 2 2_1"                      , "C 2 2 2_1"          , "C222_1"    , ""     , Bravais::C,  6, 116},
   { 20, "D2^5"  , "A 2a 2a"         , "A 2_1 2 2"                      , "A 2_1 2 2"          , "A2_122"    , "cab"  , Bravais::A,  6, 117},
-  { 20, "D2^5"  , "B 2 2b"          , "B 2 2_1 2"                      , "B 2 2_1 2"          , "B22_12"    , "bca"  , Bravais::P,  6, 118},
+  { 20, "D2^5"  , "B 2 2b"          , "B 2 2_1 2"                      , "B 2 2_1 2"          , "B22_12"    , "bca"  , Bravais::B,  6, 118},
   { 21, "D2^6"  , "C 2 2"           , "C 2 2 2"                        , "C 2 2 2"            , "C222"      , ""     , Bravais::C,  6, 119},
   { 21, "D2^6"  , "A 2 2"           , "A 2 2 2"                        , "A 2 2 2"            , "A222"      , "cab"  , Bravais::A,  6, 120},
-  { 21, "D2^6"  , "B 2 2"           , "B 2 2 2"                        , "B 2 2 2"            , "B222"      , "bca"  , Bravais::P,  6, 121},
+  { 21, "D2^6"  , "B 2 2"           , "B 2 2 2"                        , "B 2 2 2"            , "B222"      , "bca"  , Bravais::B,  6, 121},
   { 22, "D2^7"  , "F 2 2"           , "F 2 2 2"                        , "F 2 2 2"            , "F222"      , ""     , Bravais::F,  6, 122},
   { 23, "D2^8"  , "I 2 2"           , "I 2 2 2"                        , "I 2 2 2"            , "I222"      , ""     , Bravais::I,  6, 123},
   { 24, "D2^9"  , "I 2b 2c"         , "I 2_1 2_1 2_1"                  , "I 2_1 2_1 2_1"      , "I2_12_12_1", ""     , Bravais::I,  6, 124},
@@ -251,37 +251,37 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 34, "C2v^10", "P -2n -2n"       , "P n 2 n"                        , "P n 2 n"            , "Pn2n"      , "bca"  , Bravais::P,  7, 172},
   { 35, "C2v^11", "C 2 -2"          , "C m m 2"                        , "C m m 2"            , "Cmm2"      , ""     , Bravais::C,  7, 173},
   { 35, "C2v^11", "A -2 2"          , "A 2 m m"                        , "A 2 m m"            , "A2mm"      , "cab"  , Bravais::A,  7, 174},
-  { 35, "C2v^11", "B -2 -2"         , "B m 2 m"                        , "B m 2 m"            , "Bm2m"      , "bca"  , Bravais::P,  7, 175},
+  { 35, "C2v^11", "B -2 -2"         , "B m 2 m"                        , "B m 2 m"            , "Bm2m"      , "bca"  , Bravais::B,  7, 175},
   { 36, "C2v^12", "C 2c -2"         , "C m c 2_1"                      , "C m c 2_1"          , "Cmc2_1"    , ""     , Bravais::C,  7, 176},
   { 36, "C2v^12", "C 2c -2c"        , "C c m 2_1"                      , "C c m 2_1"          , "Ccm2_1"    , "ba-c" , Bravais::C,  7, 177},
   { 36, "C2v^12", "A -2a 2a"        , "A 2_1 m a"                      , "A 2_1 m a"          , "A2_1ma"    , "cab"  , Bravais::A,  7, 178},
   { 36, "C2v^12", "A -2 2a"         , "A 2_1 a m"                      , "A 2_1 a m"          , "A2_1am"    , "-cba" , Bravais::A,  7, 179},
-  { 36, "C2v^12", "B -2 -2b"        , "B b 2_1 m"                      , "B b 2_1 m"          , "Bb2_1m"    , "bca"  , Bravais::P,  7, 180},
-  { 36, "C2v^12", "B -2b -2"        , "B m 2_1 b"                      , "B m 2_1 b"          , "Bm2_1b"    , "a-cb" , Bravais::P,  7, 181},
+  { 36, "C2v^12", "B -2 -2b"        , "B b 2_1 m"                      , "B b 2_1 m"          , "Bb2_1m"    , "bca"  , Bravais::B,  7, 180},
+  { 36, "C2v^12", "B -2b -2"        , "B m 2_1 b"                      , "B m 2_1 b"          , "Bm2_1b"    , "a-cb" , Bravais::B,  7, 181},
   { 37, "C2v^13", "C 2 -2c"         , "C c c 2"                        , "C c c 2"            , "Ccc2"      , ""     , Bravais::C,  7, 182},
   { 37, "C2v^13", "A -2a 2"         , "A 2 a a"                        , "A 2 a a"            , "A2aa"      , "cab"  , Bravais::A,  7, 183},
-  { 37, "C2v^13", "B -2b -2b"       , "B b 2 b"                        , "B b 2 b"            , "Bb2b"      , "bca"  , Bravais::P,  7, 184},
+  { 37, "C2v^13", "B -2b -2b"       , "B b 2 b"                        , "B b 2 b"            , "Bb2b"      , "bca"  , Bravais::B,  7, 184},
   { 38, "C2v^14", "A 2 -2"          , "A m m 2"                        , "A m m 2"            , "Amm2"      , ""     , Bravais::A,  7, 185},
-  { 38, "C2v^14", "B 2 -2"          , "B m m 2"                        , "B m m 2"            , "Bmm2"      , "ba-c" , Bravais::P,  7, 186},
-  { 38, "C2v^14", "B -2 2"          , "B 2 m m"                        , "B 2 m m"            , "B2mm"      , "cab"  , Bravais::P,  7, 187},
+  { 38, "C2v^14", "B 2 -2"          , "B m m 2"                        , "B m m 2"            , "Bmm2"      , "ba-c" , Bravais::B,  7, 186},
+  { 38, "C2v^14", "B -2 2"          , "B 2 m m"                        , "B 2 m m"            , "B2mm"      , "cab"  , Bravais::B,  7, 187},
   { 38, "C2v^14", "C -2 2"          , "C 2 m m"                        , "C 2 m m"            , "C2mm"      , "-cba" , Bravais::C,  7, 188},
   { 38, "C2v^14", "C -2 -2"         , "C m 2 m"                        , "C m 2 m"            , "Cm2m"      , "bca"  , Bravais::C,  7, 189},
   { 38, "C2v^14", "A -2 -2"         , "A m 2 m"                        , "A m 2 m"            , "Am2m"      , "a-cb" , Bravais::A,  7, 190},
   { 39, "C2v^15", "A 2 -2c"         , "A e m 2"                        , "A e m 2"            , "Aem2"      , ""     , Bravais::A,  7, 191},
-  { 39, "C2v^15", "B 2 -2c"         , "B m e 2"                        , "B m e 2"            , "Bme2"      , "ba-c" , Bravais::P,  7, 192},
-  { 39, "C2v^15", "B -2c 2"         , "B 2 e m"                        , "B 2 e m"            , "B2em"      , "cab"  , Bravais::P,  7, 193},
+  { 39, "C2v^15", "B 2 -2c"         , "B m e 2"                        , "B m e 2"            , "Bme2"      , "ba-c" , Bravais::B,  7, 192},
+  { 39, "C2v^15", "B -2c 2"         , "B 2 e m"                        , "B 2 e m"            , "B2em"      , "cab"  , Bravais::B,  7, 193},
   { 39, "C2v^15", "C -2b 2"         , "C 2 m e"                        , "C 2 m e"            , "C2me"      , "-cba" , Bravais::C,  7, 194},
   { 39, "C2v^15", "C -2b -2b"       , "C m 2 e"                        , "C m 2 e"            , "Cm2e"      , "bca"  , Bravais::C,  7, 195},
   { 39, "C2v^15", "A -2c -2c"       , "A e 2 m"                        , "A e 2 m"            , "Ae2m"      , "a-cb" , Bravais::A,  7, 196},
   { 40, "C2v^16", "A 2 -2a"         , "A m a 2"                        , "A m a 2"            , "Ama2"      , ""     , Bravais::A,  7, 197},
-  { 40, "C2v^16", "B 2 -2b"         , "B b m 2"                        , "B b m 2"            , "Bbm2"      , "ba-c" , Bravais::P,  7, 198},
-  { 40, "C2v^16", "B -2b 2"         , "B 2 m b"                        , "B 2 m b"            , "B2mb"      , "cab"  , Bravais::P,  7, 199},
+  { 40, "C2v^16", "B 2 -2b"         , "B b m 2"                        , "B b m 2"            , "Bbm2"      , "ba-c" , Bravais::B,  7, 198},
+  { 40, "C2v^16", "B -2b 2"         , "B 2 m b"                        , "B 2 m b"            , "B2mb"      , "cab"  , Bravais::B,  7, 199},
   { 40, "C2v^16", "C -2c 2"         , "C 2 c m"                        , "C 2 c m"            , "C2cm"      , "-cba" , Bravais::C,  7, 200},
   { 40, "C2v^16", "C -2c -2c"       , "C c 2 m"                        , "C c 2 m"            , "Cc2m"      , "bca"  , Bravais::C,  7, 201},
   { 40, "C2v^16", "A -2a -2a"       , "A m 2 a"                        , "A m 2 a"            , "Am2a"      , "a-cb" , Bravais::A,  7, 202},
   { 41, "C2v^17", "A 2 -2ac"        , "A e a 2"                        , "A e a 2"            , "Aea2"      , ""     , Bravais::A,  7, 203},
-  { 41, "C2v^17", "B 2 -2bc"        , "B b e 2"                        , "B b e 2"            , "Bbe2"      , "ba-c" , Bravais::P,  7, 204},
-  { 41, "C2v^17", "B -2bc 2"        , "B 2 e b"                        , "B 2 e b"            , "B2eb"      , "cab"  , Bravais::P,  7, 205},
+  { 41, "C2v^17", "B 2 -2bc"        , "B b e 2"                        , "B b e 2"            , "Bbe2"      , "ba-c" , Bravais::B,  7, 204},
+  { 41, "C2v^17", "B -2bc 2"        , "B 2 e b"                        , "B 2 e b"            , "B2eb"      , "cab"  , Bravais::B,  7, 205},
   { 41, "C2v^17", "C -2bc 2"        , "C 2 c e"                        , "C 2 c e"            , "C2ce"      , "-cba" , Bravais::C,  7, 206},
   { 41, "C2v^17", "C -2bc -2bc"     , "C c 2 e"                        , "C c 2 e"            , "Cc2e"      , "bca"  , Bravais::C,  7, 207},
   { 41, "C2v^17", "A -2ac -2ac"     , "A e 2 a"                        , "A e 2 a"            , "Ae2a"      , "a-cb" , Bravais::A,  7, 208},
@@ -378,26 +378,26 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 63, "D2h^17", "-C 2c 2c"        , "C c m m"                        , "C 2/c 2/m 2_1/m"    , "Ccmm"      , "ba-c" , Bravais::C,  8, 299},
   { 63, "D2h^17", "-A 2a 2a"        , "A m m a"                        , "A 2_1/m 2/m 2/a"    , "Amma"      , "cab"  , Bravais::A,  8, 300},
   { 63, "D2h^17", "-A 2 2a"         , "A m a m"                        , "A 2_1/m 2/a 2/m"    , "Amam"      , "-cba" , Bravais::A,  8, 301},
-  { 63, "D2h^17", "-B 2 2b"         , "B b m m"                        , "B 2/b 2_1/m 2/m"    , "Bbmm"      , "bca"  , Bravais::P,  8, 302},
-  { 63, "D2h^17", "-B 2b 2"         , "B m m b"                        , "B 2/m 2_1/m 2/b"    , "Bmmb"      , "a-cb" , Bravais::P,  8, 303},
+  { 63, "D2h^17", "-B 2 2b"         , "B b m m"                        , "B 2/b 2_1/m 2/m"    , "Bbmm"      , "bca"  , Bravais::B,  8, 302},
+  { 63, "D2h^17", "-B 2b 2"         , "B m m b"                        , "B 2/m 2_1/m 2/b"    , "Bmmb"      , "a-cb" , Bravais::B,  8, 303},
   { 64, "D2h^18", "-C 2bc 2"        , "C m c e"                        , "C 2/m 2/c 2_1/e"    , "Cmce"      , ""     , Bravais::C,  8, 304},
   { 64, "D2h^18", "-C 2bc 2bc"      , "C c m e"                        , "C 2/c 2/m 2_1/e"    , "Ccme"      , "ba-c" , Bravais::C,  8, 305},
   { 64, "D2h^18", "-A 2ac 2ac"      , "A e m a"                        , "A 2_1/e 2/m 2/a"    , "Aema"      , "cab"  , Bravais::A,  8, 306},
   { 64, "D2h^18", "-A 2 2ac"        , "A e a m"                        , "A 2_1/e 2/a 2/m"    , "Aeam"      , "-cba" , Bravais::A,  8, 307},
-  { 64, "D2h^18", "-B 2 2bc"        , "B b e m"                        , "B 2/b 2_1/e 2/m"    , "Bbem"      , "bca"  , Bravais::P,  8, 308},
-  { 64, "D2h^18", "-B 2bc 2"        , "B m e b"                        , "B 2/m 2_1/e 2/b"    , "Bmeb"      , "a-cb" , Bravais::P,  8, 309},
+  { 64, "D2h^18", "-B 2 2bc"        , "B b e m"                        , "B 2/b 2_1/e 2/m"    , "Bbem"      , "bca"  , Bravais::B,  8, 308},
+  { 64, "D2h^18", "-B 2bc 2"        , "B m e b"                        , "B 2/m 2_1/e 2/b"    , "Bmeb"      , "a-cb" , Bravais::B,  8, 309},
   { 65, "D2h^19", "-C 2 2"          , "C m m m"                        , "C 2/m 2/m 2/m"      , "Cmmm"      , ""     , Bravais::C,  8, 310},
   { 65, "D2h^19", "-A 2 2"          , "A m m m"                        , "A 2/m 2/m 2/m"      , "Ammm"      , "cab"  , Bravais::A,  8, 311},
-  { 65, "D2h^19", "-B 2 2"          , "B m m m"                        , "B 2/m 2/m 2/m"      , "Bmmm"      , "bca"  , Bravais::P,  8, 312},
+  { 65, "D2h^19", "-B 2 2"          , "B m m m"                        , "B 2/m 2/m 2/m"      , "Bmmm"      , "bca"  , Bravais::B,  8, 312},
   { 66, "D2h^20", "-C 2 2c"         , "C c c m"                        , "C 2/c 2/c 2/m"      , "Cccm"      , ""     , Bravais::C,  8, 313},
   { 66, "D2h^20", "-A 2a 2"         , "A m a a"                        , "A 2/m 2/a 2/a"      , "Amaa"      , "cab"  , Bravais::A,  8, 314},
-  { 66, "D2h^20", "-B 2b 2b"        , "B b m b"                        , "B 2/b 2/m 2/b"      , "Bbmb"      , "bca"  , Bravais::P,  8, 315},
+  { 66, "D2h^20", "-B 2b 2b"        , "B b m b"                        , "B 2/b 2/m 2/b"      , "Bbmb"      , "bca"  , Bravais::B,  8, 315},
   { 67, "D2h^21", "-C 2b 2"         , "C m m e"                        , "C 2/m 2/m 2/e"      , "Cmme"      , ""     , Bravais::C,  8, 316},
   { 67, "D2h^21", "-C 2b 2b"        , "C m m e"                        , "C 2/m 2/m 2/e"      , "Cmme"      , "ba-c" , Bravais::C,  8, 317},
   { 67, "D2h^21", "-A 2c 2c"        , "A e m m"                        , "A 2/e 2/m 2/m"      , "Aemm"      , "cab"  , Bravais::A,  8, 318},
   { 67, "D2h^21", "-A 2 2c"         , "A e m m"                        , "A 2/e 2/m 2/m"      , "Aemm"      , "-cba" , Bravais::A,  8, 319},
-  { 67, "D2h^21", "-B 2 2c"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "bca"  , Bravais::P,  8, 320},
-  { 67, "D2h^21", "-B 2c 2"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "a-cb" , Bravais::P,  8, 321},
+  { 67, "D2h^21", "-B 2 2c"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "bca"  , Bravais::B,  8, 320},
+  { 67, "D2h^21", "-B 2c 2"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "a-cb" , Bravais::B,  8, 321},
   { 68, "D2h^22", "C 2 2 -1bc"      , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "1"    , Bravais::C,  8, 322},
   { 68, "D2h^22", "-C 2b 2bc"       , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "2"    , Bravais::C,  8, 323},
   { 68, "D2h^22", "C 2 2 -1bc"      , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "1ba-c", Bravais::C,  8, 324},
@@ -406,10 +406,10 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 68, "D2h^22", "-A 2a 2c"        , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "2cab" , Bravais::A,  8, 327},
   { 68, "D2h^22", "A 2 2 -1ac"      , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "1-cba", Bravais::A,  8, 328},
   { 68, "D2h^22", "-A 2ac 2c"       , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "2-cba", Bravais::A,  8, 329},
-  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1bca" , Bravais::P,  8, 330},
-  { 68, "D2h^22", "-B 2bc 2b"       , "B b c b"                        , "B 2/b 2/e 2/b"      , "Bbcb"      , "2bca" , Bravais::P,  8, 331},
-  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1a-cb", Bravais::P,  8, 332},
-  { 68, "D2h^22", "-B 2b 2bc"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2a-cb", Bravais::P,  8, 333},
+  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1bca" , Bravais::B,  8, 330},
+  { 68, "D2h^22", "-B 2bc 2b"       , "B b c b"                        , "B 2/b 2/e 2/b"      , "Bbcb"      , "2bca" , Bravais::B,  8, 331},
+  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1a-cb", Bravais::B,  8, 332},
+  { 68, "D2h^22", "-B 2b 2bc"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2a-cb", Bravais::B,  8, 333},
   { 69, "D2h^23", "-F 2 2"          , "F m m m"                        , "F 2/m 2/m 2/m"      , "Fmmm"      , ""     , Bravais::F,  8, 334},
   { 70, "D2h^24", "F 2 2 -1d"       , "F d d d"                        , "F 2/d 2/d 2/d"      , "Fddd"      , "1"    , Bravais::F,  8, 335},
   { 70, "D2h^24", "-F 2uv 2vw"      , "F d d d"                        , "F 2/d 2/d 2/d"      , "Fddd"      , "2"    , Bravais::F,  8, 336},
-- 
2.43.0


From 6a13aea0ddc57dd6f49f0848a9ee81ce73af152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:28 +0000
Subject: [PATCH 33/38] fix: look up International Tables spacegroup numbers 1
 to 230, not 0 to 229

---
 src/spg_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index 81b31b4..3bebdf9 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -612,7 +612,7 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
 bool brille::hall_number_ok(const int h) {return h>0 && h<531;}
 
 int brille::international_number_to_hall_number(const int n, const std::string& c){
-	if (n>=0 && n<230) for (int i=1; i<531; i++){
+	if (n>0 && n<=230) for (int i=1; i<531; i++){
 		Spacegroup spg(ALL_SPACEGROUPS[i]);
     if (n==spg.number && (0==c.size() || 0==c.compare(spg.choice))) return i;
 	}
-- 
2.43.0


From 43d7585afdac2e415b84e068eb6d63d854903d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:28 +0000
Subject: [PATCH 34/38] fix: name spacegroup setting 331 Bbeb like its full
 symbol and the other settings of 68

---
 src/spg_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index 3bebdf9..7f68e53 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -407,7 +407,7 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 68, "D2h^22", "A 2 2 -1ac"      , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "1-cba", Bravais::A,  8, 328},
   { 68, "D2h^22", "-A 2ac 2c"       , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "2-cba", Bravais::A,  8, 329},
   { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1bca" , Bravais::B,  8, 330},
-  { 68, "D2h^22", "-B 2bc 2b"       , "B b c b"                        , "B 2/b 2/e 2/b"      , "Bbcb"      , "2bca" , Bravais::B,  8, 331},
+  { 68, "D2h^22", "-B 2bc 2b"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2bca" , Bravais::B,  8, 331},
   { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1a-cb", Bravais::B,  8, 332},
   { 68, "D2h^22", "-B 2b 2bc"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2a-cb", Bravais::B,  8, 333},
   { 69, "D2h^23", "-F 2 2"          , "F m m m"                        , "F 2/m 2/m 2/m"      , "Fmmm"      , ""     , Bravais::F,  8, 334},
-- 
2.43.0


From 645a61d630430eee8e975ce08199a8a9fb55dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:28 +0000
Subject: [PATCH 35/38] fix: remove the trailing blank from the Schoenflies
 symbol of point group 32

---
 src/pointgroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointgroup.cpp b/src/pointgroup.cpp
index 5a90f89..cfce8dd 100644
--- a/src/pointgroup.cpp
+++ b/src/pointgroup.cpp
@@ -98,7 +98,7 @@ static PointgroupType pointgroup_data[33] = {
   {/*15*/{0,2,0,5,1,1,5,0,2,0},"4/mmm","D4h",Holohedry::tetragonal,Laue::_4mmm,},
   {/*16*/{0,0,0,0,0,1,0,2,0,0},"3"    ,"C3" ,Holohedry::trigonal  ,Laue::_3   ,},
   {/*17*/{0,0,2,0,1,1,0,2,0,0},"-3"   ,"C3i",Holohedry::trigonal  ,Laue::_3   ,},
-  {/*18*/{0,0,0,0,0,1,3,2,0,0},"32"   ,"D3 ",Holohedry::trigonal  ,Laue::_3m  ,},
+  {/*18*/{0,0,0,0,0,1,3,2,0,0},"32"   ,"D3" ,Holohedry::trigonal  ,Laue::_3m  ,},
   {/*19*/{0,0,0,3,0,1,0,2,0,0},"3m"   ,"C3v",Holohedry::trigonal  ,Laue::_3m  ,},
   {/*20*/{0,0,2,3,1,1,3,2,0,0},"-3m"  ,"D3d",Holohedry::trigonal  ,Laue::_3m  ,},
   {/*21*/{0,0,0,0,0,1,1,2,0,2},"6"    ,"C6" ,Holohedry::hexagonal ,Laue::_6m  ,},
-- 
2.43.0


From 6c1d315d625900a021ed3fb6da474a9ee0804228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:28 +0000
Subject: [PATCH 36/38] fix: return the identity, not a matrix of ones, as the
 transform of a primitive cell

---
 src/primitive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitive.hpp b/src/primitive.hpp
index d87794a..546c62c 100644
--- a/src/primitive.hpp
+++ b/src/primitive.hpp
@@ -118,7 +118,7 @@ public:
     case Bravais::B: return { 3, 0,-3,  0, 6, 0,  3, 0, 3};
     case Bravais::C: return { 3, 3, 0, -3, 3, 0,  0, 0, 6};
     case Bravais::R: return { 4,-2,-2,  2, 2,-4,  2, 2, 2};
-    default: return {6,6,6, 6,6,6, 6,6,6};
+    default: return {6,0,0, 0,6,0, 0,0,6};
     }
   }
   /*! \brief Return the inverse of the transformation matrix P
-- 
2.43.0


From c9f4f13a4ee40b35a45a54cc5a3c7ec8999aeb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:26 +0000
Subject: [PATCH 37/38] fix: rotate real-space vectors and tensors by the
 operation that moved Q, as axial and phonon data already are
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Points satisfy Q = Rᵀq + τ, so real-space components transform by R⁻¹; R was
used instead, which differs for every operation of order greater than two.
---
 src/interpolator_real.tpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/interpolator_real.tpp b/src/interpolator_real.tpp
index 3e31f0f..f878c8f 100644
--- a/src/interpolator_real.tpp
+++ b/src/interpolator_real.tpp
@@ -42,18 +42,18 @@ bool Interpolator<T>::rip_real(
       for (ind_t b=0; b<b_; ++b){
         // scalar elements do not need to be rotated, so skip them
         ind_t o = b*s_ + no[0];
-        // rotate real vectors: since Q = Rᵀq + τ → Rv
+        // rotate real vectors: since Q = Rᵀq + τ → R⁻¹v
         for (ind_t v=0; v<no[1]; ++v){
-          brille::utils::mul_mat_vec(tmp_v, 3u, ptsym.get(r[i]).data(), xi+o);
+          brille::utils::mul_mat_vec(tmp_v, 3u, ptsym.get(invR[i]).data(), xi+o);
           for (int j=0; j<3; ++j) x.val(i,o+j) = tmp_v[j];
           o += 3u; // shift 3 for each vector
         }
         for (ind_t m=0; m<no[2]; ++m){
-          // Calculate R*M*R⁻¹ in two steps
-          // first calculate M*R⁻¹, storing in tmp_m
-          brille::utils::mul_mat_mat(tmp_m, 3u, xi+o, ptsym.get(invR[i]).data());
-          // next calculate R*tmp_m, storing back in the x array
-          brille::utils::mul_mat_mat(xi+o, 3u, ptsym.get(r[i]).data(), tmp_m);
+          // Calculate R⁻¹*M*R in two steps
+          // first calculate M*R, storing in tmp_m
+          brille::utils::mul_mat_mat(tmp_m, 3u, xi+o, ptsym.get(r[i]).data());
+          // next calculate R⁻¹*tmp_m, storing back in the x array
+          brille::utils::mul_mat_mat(xi+o, 3u, ptsym.get(invR[i]).data(), tmp_m);
           o += 9u; // shift 9 for each matrix
         }
       }
-- 
2.43.0


From 9f11598aa3a21eeba3e1bf25f2399c3c13416ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:26 +0000
Subject: [PATCH 38/38] fix: count the NxN tensors of a Gamma transformation in
 tensors, not in elements

no[2] is already the number of 3x3 tensors, so N was a third of the atom count
and most of the tensors were replaced by zeros, or none was rotated at all.
---
 src/interpolator_gamma.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolator_gamma.tpp b/src/interpolator_gamma.tpp
index b662e5c..33ad560 100644
--- a/src/interpolator_gamma.tpp
+++ b/src/interpolator_gamma.tpp
@@ -64,8 +64,8 @@ bool Interpolator<T>::rip_gamma_complex(
   if (!std::any_of(no.begin()+1, no.end(), [](ind_t n){return n>0;}))
     return false;
   // for Γ transformations of tensors, there *must* be N×N in total:
-  ind_t Nmat = static_cast<ind_t>(std::sqrt(no[2]))/3;
-  if (no[2] != 9*Nmat*Nmat){
+  ind_t Nmat = static_cast<ind_t>(std::sqrt(no[2]));
+  if (no[2] != Nmat*Nmat){
     info_update("Atomic displacement Gamma transformation requires NxN 3x3 tensors!");
     return false;
   }
-- 
2.43.0

