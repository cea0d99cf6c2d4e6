// Instantiates the lattice, lattice-vector and symmetry templates. Never linked or run.
#include "array_.hpp"
#include "array_l_.hpp"
#include "lattice_dual.hpp"
#include "transform.hpp"
#include "motion.hpp"
#include "phonon.hpp"
#include "geometry.hpp"
#include "basis.hpp"
namespace brille { namespace lattice { template class LVec<double>; template class LVec<int>; template class Lattice<double>; template class Impl<double>; }
template class Motion<int,double>; }
using namespace brille; using namespace brille::lattice;
void use_lat(LVec<double>& a, LVec<double>& b, LVec<int>& i, bArray<double>& x, bArray<int>& xi, Lattice<double>& l, std::array<double,9>& m, std::array<int,9>& mi, std::array<double,3>& v3, std::vector<std::array<double,3>>& vv){
  (void)(a+b); (void)(a-b); (void)(a+i); (void)(a-i); (void)(i+a); (void)(i-a); (void)(a+x); (void)(a-x); (void)(x+a); (void)(x-a); (void)(a*x); (void)(a/x); (void)(x*a);
  (void)(a+1.); (void)(a-1.); (void)(a*2.); (void)(a/2.); (void)(1.+a); (void)(1.-a); (void)(2.*a); (void)(-a); (void)(-x);
  a+=1.; a-=1.; a*=2.; a/=2.; a+=b; a-=b; a*=b; a/=b; a+=x; a-=x; a*=x; a/=x;
  (void)(a+v3); (void)(a-v3); (void)(a*v3); (void)(a/v3); (void)(x+v3); (void)(x-v3); (void)(x*v3); (void)(x/v3);
  (void)(m*a); (void)(mi*a); (void)(a^2.);
  (void)dot(a,b); (void)dot(x,a); (void)dot(x,x); (void)cross(a,b); (void)cross(x,x); (void)norm(a); (void)norm(x); (void)star(a);
  (void)cat(0,a,b); (void)cat(0,a,x); (void)cat(0,x,a); (void)cat(0,x,x); (void)cat(0,a,b,a);  (void)abs(a); (void)abs(x);
  (void)triple_product(a,a,a,b); (void)triple_product(x,x,x,x); (void)get_xyz(a); (void)get_xyz(x); (void)from_std_like(a,vv); (void)from_std_like(x,vv); (void)from_xyz_like(a,x); (void)from_xyz_like(x,x);
  (void)a.star(); (void)a.xyz(); (void)a.hkl(); (void)a.dot(0,1); (void)a.norm(0); (void)a.cross(0,1); (void)a.view(0); (void)a.extract(0); (void)a.is(b); (void)a.same_lattice(b); (void)a.star_lattice(b); (void)a.same_lattice(&b); (void)a.star_lattice(&b); (void)LVec<double>(i);
  (void)xyz_to_hkl(l,LengthUnit::angstrom, x); (void)hkl_to_xyz(l,LengthUnit::angstrom,x);
  (void)l.lengths(LengthUnit::angstrom); (void)l.angles(LengthUnit::angstrom,AngleUnit::radian); (void)l.is_equivalent(l); (void)l.is_permuted(l); (void)l.is_same(l); (void)l.vectors(LengthUnit::angstrom); (void)l.vector(LengthUnit::angstrom,0);
  (void)Direct(v3,v3,"P 1"); (void)Reciprocal(v3,v3,"P 1"); (void)Direct(m,MatrixVectors::row,"P 1",""); (void)Reciprocal(m,MatrixVectors::row,"P 1","");(void)Direct(v3,v3,"P 1","");
  Motion<int,double> mo; (void)(mo*mo); (void)mo.move_vector(v3); (void)mo.move_axial(v3); (void)mo.move_point(v3); (void)mo.inverse();  (void)(mo==mo);
}
