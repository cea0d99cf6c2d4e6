// Instantiates the arithmetic operators of the arrays and lattice vectors. Never linked or run.
#include "array_.hpp"
#include "array_l_.hpp"
#include "lattice_dual.hpp"
using namespace brille; using namespace brille::lattice;
template<class A, class B> void aa(A& a, B& b){ (void)(a+b); (void)(a-b); (void)(a*b); (void)(a/b); }
template<class A, class B> void in(A& a, B& b){ a+=b; a-=b; a*=b; a/=b; }
template<class A, class B> void sa(A& a, B b){ (void)(a+b); (void)(a-b); (void)(a*b); (void)(a/b); (void)(b+a); (void)(b-a); (void)(b*a); }
void use(Array<double>& a, Array<int>& b, Array2<double>& c, Array2<int>& d, LVec<double>& l, LVec<int>& k, std::array<double,3>& v, std::array<double,9>& m){
  aa(a,a); aa(a,b); aa(b,b); aa(c,c); aa(c,d); aa(d,c); aa(d,d);
  in(a,a); in(a,b); in(b,b); in(c,c); in(c,d); in(d,d);
  double x{1}; int n{1}; in(a,x); in(b,n); in(c,x); in(d,n);
  sa(c,x); sa(c,n); sa(d,n); sa(d,x);
  (void)(-a); (void)(-b); (void)(-c); (void)(-d); (void)(-l); (void)(-k);
  aa(c,v); aa(l,v);
  (void)(l+l); (void)(l-l); (void)(l+k); (void)(l-k); (void)(k+l); (void)(k-l); (void)(k-k); (void)(k+k);
  aa(l,c); aa(l,d); aa(k,d); aa(c,l); aa(d,l); aa(d,k);
  in(l,l); in(l,c); in(l,x); in(k,n); in(k,k); in(k,d);
  sa(l,x); sa(l,n); sa(k,n); sa(k,x); (void)(m*l);
  (void)RawBinaryOperator<double>(ops::plus)(x,x); (void)RawBinaryOperator<int>(ops::plus)(n,n);
}
template class brille::RawBinaryOperator<double>;
template class brille::RawBinaryOperator<int>;
