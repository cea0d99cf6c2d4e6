// Instantiates the array templates so that their members are analysed with resolved types. Never linked or run.
#include "array_.hpp"
#include "subscript.hpp"
#include "comparisons.hpp"
#include <complex>
namespace brille {
template class Array2<double>;
template class Array2<int>;
template class Array2It<double>;
template class Array<double>;
template class Array<int>;
template class ArrayIt<double>;
template class SubIt<unsigned>;
template class SubIt2<unsigned>;
template class BroadcastIt<unsigned>;
template class BroadcastIt2<unsigned>;
template class Comparer<double,double>;
template class Comparer<int,int>;
template class Comparer<unsigned,int>;
template class Comparer<int,unsigned>;
template class RawBinaryOperator<double>;
template class RawBinaryOperator<int>;
}
using namespace brille;
typedef std::complex<double> cd;
void use_array(Array<double>& a, Array<int>& b, Array2<double>& c, Array2<int>& d, Array2<unsigned>& u, Array<unsigned>& v, std::vector<int>& vi, std::vector<unsigned>& vu, std::vector<double>& vd, std::array<unsigned,2>& a2, std::array<unsigned,3>& a3, std::vector<bool>& vb){
  (void)(a+a); (void)(a-a); (void)(a*a); (void)(a/a);
  (void)(a+b); (void)(a-b); (void)(a*b); (void)(a/b);
  (void)(c+c); (void)(c-c); (void)(c*c); (void)(c/c);
  (void)(c+d); (void)(c-d); (void)(c*d); (void)(c/d);
  (void)(c+1.); (void)(c-1.); (void)(c*2.); (void)(c/2.);
  (void)(1.+c); (void)(1.-c); (void)(2.*c);
  a+=1.; a-=1.; a*=2.; a/=2.; c+=1.; c-=1.; c*=2.; c/=2.;
  a+=a; a-=a; a*=a; a/=a; c+=c; c-=c; c*=c; c/=c;
  a+=b; a-=b; a*=b; a/=b; c+=d; c-=d; c*=d; c/=d;
  (void)(c^2.); (void)(-a); (void)(-c);
  (void)c.extract(d); (void)c.extract(u); (void)c.extract(vi); (void)c.extract(vu); (void)c.extract(a2); (void)c.extract(a3); (void)c.extract(vb);
  (void)a.extract(v); (void)a.extract(vu); (void)a.extract(a2); (void)a.extract(vb);
  (void)dot(c,c); (void)cross(c,c); (void)norm(c);
  (void)c.view(0u,1u); (void)c.view(0); (void)c.extract(0u); (void)a.view(0u); (void)a.view(0u,1u);
  (void)c.all(cmp::eq,1.); (void)c.any(cmp::eq,1.); (void)c.first(cmp::eq,1.); (void)c.last(cmp::eq,1.); (void)c.count(cmp::eq,1.); (void)c.is(cmp::eq,1.); (void)c.find(cmp::eq,1.);
  (void)c.is(cmp::eq,c); (void)c.is(c); (void)c.row_is(cmp::eq,c); (void)c.match(0u,1u); (void)c.match(0u,1u,ops::plus,1.);
  (void)a.all(cmp::eq,1.); (void)a.any(cmp::eq,1.); (void)a.is(cmp::eq,a); (void)a.is(a);
  (void)c.dot(0u,1u); (void)c.norm(0u); (void)a.dot(0u,1u); (void)a.norm(0u);
  (void)c.is_unique(); (void)c.unique_idx(); (void)c.unique(); (void)c.is_permutation(c);
  (void)a.is_unique(); (void)a.unique_idx(); (void)a.unique();
  c.permute(vu); a.permute(vu); c.swap(0u,1u); a.swap(0u,1u);
  (void)cat(0,c,c); (void)cat(0,c,c,c); (void)abs(c); (void)norm(c);
  c.set(0u,c); c.set(0u,vd); a.set(0u,a); a.set(0u,vd); c.set(0u,a2);
  Array2<int> e(c); Array<int> f(a); e=c; f=a; Array2<double> g(a); (void)e;(void)f;(void)g;
  (void)c.to_std(); (void)a.to_std(); (void)a.slice(0u);
  (void)(c==c);(void)(c!=c);
  (void)lin2sub(1u,vu); (void)lin2sub(1u,a2); (void)is_fixed(1,2u); (void)is_fixed(1u,2u); (void)is_fixed(1,2); (void)is_fixed(1l,2u);
  (void)a.val(1u); (void)a.val(1u,1u); (void)a.val(vu); (void)a.ptr(); (void)a.ptr(1u); (void)a.ptr(1u,1u); (void)a.ptr(vu);
  (void)c.val(1u,1u); (void)c.val(a2); (void)c.val(1u); (void)c.ptr(); (void)c.ptr(1u); (void)c.ptr(1u,1u); (void)c.ptr(a2);
  const auto& ca=a; const auto& cc=c;
  (void)ca.val(1u); (void)ca.val(1u,1u); (void)ca.val(vu); (void)ca.ptr(); (void)ca.ptr(1u); (void)ca.ptr(1u,1u); (void)ca.ptr(vu);
  (void)cc.val(1u,1u); (void)cc.val(a2); (void)cc.val(1u); (void)cc.ptr(); (void)cc.ptr(1u); (void)cc.ptr(1u,1u); (void)cc.ptr(a2);
}
