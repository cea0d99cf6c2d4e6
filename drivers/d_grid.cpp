// Instantiates the interpolation grids and polyhedra. Never linked or run.
#include "bz.hpp"
#include "bz_trellis.hpp"
#include "bz_mesh.hpp"
#include "bz_nest.hpp"
#include <complex>
typedef std::complex<double> cd;
using namespace brille; using namespace brille::lattice;
namespace brille {
template class Interpolator<double>; template class Interpolator<cd>;
template class DualInterpolator<double,cd>;
template class BrillouinZoneTrellis3<double,cd,double>;
template class BrillouinZoneMesh3<double,cd,double>;
template class BrillouinZoneNest3<double,cd,double>;
}
template<class T> void copies_of(T& a, T& b, const T& c){ T d(c); a = c; a = std::move(b); T e(std::move(d)); b = e; }
template void copies_of(BrillouinZoneMesh3<double,cd,double>&, BrillouinZoneMesh3<double,cd,double>&, const BrillouinZoneMesh3<double,cd,double>&);
template void copies_of(BrillouinZoneTrellis3<double,cd,double>&, BrillouinZoneTrellis3<double,cd,double>&, const BrillouinZoneTrellis3<double,cd,double>&);
template void copies_of(BrillouinZoneNest3<double,cd,double>&, BrillouinZoneNest3<double,cd,double>&, const BrillouinZoneNest3<double,cd,double>&);
template void copies_of(BrillouinZone&, BrillouinZone&, const BrillouinZone&);
