// Instantiates the numeric kernels, comparison templates, logging and assignment templates. Never linked or run.
#include <cassert>
#include "utilities.hpp"
#include "math.hpp"
#include "approx_float.hpp"
#include "approx_config.hpp"
#include "comparisons.hpp"
#include "munkres.hpp"
#include "lapjv.hpp"
#include "smp.hpp"
#include "permutation.hpp"
#include "permutation_table.hpp"
#include "sorting_status.hpp"
#include "debug.hpp"
#include "logger.hpp"
#include "vertex_index_map.h"
#include "vertex_map_set.h"
#include "vertex_map_knit.h"
#include "thread_exception.h"
#include "rotates.hpp"
#include "linear_algebra.hpp"
#include "hdf_interface.hpp"
#include "array_.hpp"
namespace brille { namespace utils {
typedef std::complex<double> cd;
template<int N> void kern(double* C, const double* A, const double* B, int* I, const int* J){
  (void)trace<double,N>(A); copy_matrix<double,N>(C,A); copy_vector<double,N>(C,A);
  equal_matrix<double,N>(A,B); equal_vector<double,N>(A,B);
  multiply_matrix_matrix<double,double,double,N>(C,A,B); multiply_matrix_vector<double,double,double,N>(C,A,B); multiply_vector_matrix<double,double,double,N>(C,A,B);
  multiply_matrix_matrix<double,int,double,N>(C,J,B);
  add_matrix<double,double,double,N>(C,A,B); subtract_matrix<double,double,double,N>(C,A,B);
  cast_matrix<double,int,N>(C,J); cast_vector<double,int,N>(C,J); cast_matrix<int,double,N>(I,A); cast_vector<int,double,N>(I,A);
  similar_matrix<double,N>(C,A,B); matrix_transpose<double,N>(C,A); matrix_transpose<double,N>(C); matrix_metric<double,N>(C,A);
  (void)vector_norm_squared<double,N>(A); (void)vector_dot<double,N>(A,B); (void)is_int_matrix<double,double,N>(A,0.);
}
void kernels(double* C, const double* A, const double* B, int* I, const int* J, cd* Z, const cd* X, const cd* Y, unsigned n, size_t sn){
  kern<3>(C,A,B,I,J); kern<2>(C,A,B,I,J); kern<4>(C,A,B,I,J);
  copy_array<double,2,3>(C,A); equal_array<double,2,3>(A,B); add_arrays<double,double,double,2,3>(C,A,B); subtract_arrays<double,double,double,2,3>(C,A,B);
  cast_array<double,int,2,3>(C,J); array_transpose<double,2,3>(C,A); complex_conj_array_transpose<double,2,3>(Z,X); complex_conj_matrix_transpose<double,3>(Z,X);
  multiply_arrays<double,double,double,2,3,4>(C,A,B); multiply_arrays<double,int,double,2,3,4>(C,J,B);
  mul_arrays(C,n,n,n,A,B); mul_arrays(Z,n,n,n,A,X); mul_arrays(Z,n,n,n,X,A); mul_arrays(Z,n,n,n,X,Y);
  mul_mat_mat(C,n,A,B); mul_mat_vec(C,n,A,B); mul_vec_mat(C,n,A,B); mul_mat_vec_inplace(n,A,C); mul_mat_mat(Z,n,X,Y); mul_mat_vec(Z,n,A,X); mul_mat_vec(C,n,J,B); mul_vec_mat(Z,n,X,A);
  (void)my_cast<int,double>(1.); (void)my_cast<double,int>(1); (void)my_cast<double,double>(1);
  array_cofactor<double>(C,A,0,0,3,3); matrix_cofactor<double>(C,A,0,0,3); (void)matrix_determinant<double>(A); (void)matrix_determinant<int>(J); matrix_adjoint<double>(C,A); (void)matrix_determinant_and_inverse<double>(C,A); (void)matrix_inverse<double>(C,A);
  vector_cross<double,double,double>(C,A,B); vector_cross<double,int,double>(C,J,B); (void)vector_dot<double,double,double>(sn,A,B); (void)mod1(0.5);
  (void)is_int_matrix<double>(J,0.);
  (void)frobenius_distance(n,A,B); (void)frobenius_distance(n,X,Y); (void)vector_angle(n,A,B); (void)vector_angle(n,X,Y); (void)euclidean_angle(n,X,Y); (void)hermitian_angle(n,X,Y); (void)hermitian_angle(n,A,B);
  (void)hermitian_product(n,A,B); (void)hermitian_product(n,A,X); (void)hermitian_product(n,X,A); (void)hermitian_product(n,X,Y);
  (void)vector_distance(n,A,B); (void)vector_distance(n,X,Y); (void)vector_product(n,A,B); (void)vector_product(n,A,X); (void)vector_product(n,X,A); (void)vector_product(n,X,Y);
  (void)squared_distance(*A,*B); (void)squared_distance(*X,*Y); (void)magnitude(*A); (void)magnitude(*X); (void)magnitude(*J);
  (void)u2s<int,unsigned>(n); (void)s2u<unsigned,int>(*J); (void)u2s<long long,size_t>(sn); (void)s2u<size_t,long long>(3); (void)u2s<long,unsigned>(n); (void)s2u<unsigned,long>(3); (void)s2u<unsigned char,int>(*J); (void)u2s<signed char,unsigned>(n);
   (void)antiphase(n,A,B); (void)antiphase(n,X,Y); inplace_antiphase(n,A,B,C); inplace_antiphase(n,X,Y,Z);  (void)antiphase(*X); (void)antiphase(*A);
  (void)coth_over_en(1.,1.);
  std::vector<std::vector<unsigned>> ll; std::vector<std::vector<int>> li; convert_lists_type(li,ll); ll=convert_lists_type<unsigned>(li); (void)all_present(li); (void)invert_lists(li); (void)unordered_list_in_lists(li[0],li);
  std::array<unsigned,3> a3{}; std::vector<unsigned> vu; (void)subscript_ok(a3,a3); (void)subscript_ok(vu,vu);
  (void)unique(vu);
}
}}
using namespace brille;
typedef std::complex<double> cd;
void use_approx(const double*A,const double*B,const int*J,const cd*X, std::vector<double> v, std::array<double,3> a, std::array<double,9> m, std::array<int,9> k){
  using namespace brille::approx_float;
  (void)scalar(1.,2.); (void)scalar(1.,2); (void)scalar(1,2.); (void)scalar(1,2); (void)scalar(1u,2u); (void)scalar(1u,2);
  (void)vector(3u,A,B); (void)vector(3u,J,A); (void)vector<double,double,3>(A,B); (void)matrix(3u,A,B); (void)matrix(3u,J,J); (void)array(3u,3u,A,B); (void)equal(v,v); (void)equal(a,a); (void)equal(m,m);  (void)equal(k,k);
  Config c; (void)c.direct<double>(); (void)c.reciprocal<double>(); (void)c.digit(); (void)c.tol(1e-9);
}
void use_assign(){
  assignment::Munkres<double> mk(3); mk.run_assignment(); (void)mk.get_cost(); size_t* p=nullptr; mk.get_assignment(p); (void)mk.to_string(); 
  double* c=nullptr; int* r=nullptr; size_t* z=nullptr; 
  assignment::lapjv(3,c,false,r,r,c,c); assignment::smp(size_t(3),c,z,z,false);
  std::vector<double> cost(9); std::vector<int> ri, ci; std::vector<unsigned> ru;
  (void)jv_permutation(cost); (void)jv_permutation_fill(cost,ri); (void)jv_permutation_fill(cost,ri,ci); 
  std::array<unsigned,3> nel{}; bArray<size_t> perms(3,3); std::array<double,3> w{};
  (void)munkres_permutation(c,c,nel,1.,1.,1.,size_t(1),size_t(1),perms,size_t(0),size_t(0));
  (void)jv_permutation(c,c,nel,1.,1.,1.,size_t(1),size_t(1),perms,size_t(0),size_t(0));
  (void)jv_permutation(c,c,c,c,nel,nel,1.,1.,1.,size_t(1),size_t(1),size_t(1),perms,size_t(0),size_t(0));
  (void)sm_permutation(c,c,nel,1.,1.,1.,size_t(1),size_t(1),perms,size_t(0),size_t(0));
  std::vector<double> objs(3); std::vector<long> ix(3); apply_permutation(objs.begin(),objs.end(),ix.begin()); apply_inverse_permutation(objs.begin(),objs.end(),ix.begin());
  PermutationTable pt(3,3); pt.set(0,1,ri); pt.overwrite(0,1,ri); (void)pt.overwrite(0,1,size_t(0)); (void)(pt!=pt);
}
namespace brille { template class VertexMapSet<double, Array2>; template class Stopwatch<>; }
void use_vm(std::vector<VertexMapSet<double,Array2>>& ms, std::vector<VertexIndexMap>& mm, VertexMapSet<double,Array2>& m){
  std::vector<std::pair<VertexMapSet<double,Array2>,VertexIndexMap>> pr; (void)vertex_maps::reduce(pr); (void)vertex_maps::parallel_reduce(pr);
  (void)brille::utils::gcd(3u,4u); (void)brille::utils::binomial_coefficient(4u,3u);
  std::cout << m;
}

namespace brille { unsigned sorting_use(SortingStatus & s, unsigned m){ s.visits(m); s.addvisit(m); s.visits(m); return s.unlocked_addvisit_unsorted(m); } }
void thread_exception_use(int n){ ThreadException ex; ex.run([](int x){ if (x) throw x; }, n); ex.rethrow(); }
namespace use_linalg {
namespace la = brille::linear_algebra; namespace bm = brille::math;
void f(const std::array<double,9>& A, const std::array<int,9>& I9, const std::array<double,3>& x, const std::array<int,3>& y, const std::vector<double>& v, const std::vector<int>& w){
  (void)brille::transpose(A); (void)brille::transpose(I9);
  (void)la::dot(x,x); (void)la::dot(x,y); (void)la::dot(v,v); (void)la::dot(v,w); (void)la::norm(x); (void)la::norm(v); (void)la::hat(x);
  (void)la::mul_mat_vec(A,x); (void)la::mul_mat_vec(I9,x); (void)la::mul_vec_mat(x,A); (void)la::mul_mat_mat(A,A); (void)la::mul_mat_mat(I9,A); (void)la::mat_inverse(A); (void)la::LU_decomposition(A);
  (void)bm::degree_to_radian(1.); (void)bm::cosd(1.); (void)bm::sind(1.); (void)bm::cos_and_sin(1.); (void)bm::cos_and_sin_d(1.);
}
}
namespace use_cmp {
template<class T,class R> bool c(const T* a, const R* b, brille::cmp op){ brille::Comparer<T,R> k(op, T(0), R(0), 1); return k(*a,*b) && k(3u,a,b) && k(3u,a,2u,b,3u); }
template<class T> void o(T* c, const T* a, const T* b, brille::ops op){ brille::RawBinaryOperator<T> k(op); *c = k(*a,*b); k(3u,c,a,b); k(3u,c,1u,a,2u,b,3u); }
void f(double* c, const double* a, const int* b, int* i, brille::cmp op, brille::ops p){ (void)use_cmp::c(a,a,op); (void)use_cmp::c(a,b,op); (void)use_cmp::c(b,a,op); (void)use_cmp::c(b,b,op); use_cmp::o(c,a,a,p); use_cmp::o(i,b,b,p);
  (void)brille::to_string(op); (void)brille::to_string(p); }
}
template<class S, class U> void conv(S s, U u){ (void)brille::utils::u2s<S,U>(u); (void)brille::utils::s2u<U,S>(s); }
template<class S> void conv_all(S s){ conv<S,unsigned char>(s,0); conv<S,unsigned short>(s,0); conv<S,unsigned>(s,0); conv<S,unsigned long>(s,0); conv<S,unsigned long long>(s,0); }
void use_conv(){ conv_all<signed char>(0); conv_all<short>(0); conv_all<int>(0); conv_all<long>(0); conv_all<long long>(0); }
