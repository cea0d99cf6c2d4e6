// instantiates checked accessors which the library itself does not use
#include "array_.hpp"
#include "bz_trellis.hpp"
#include "phonon.hpp"
namespace brille {
using cd = std::complex<double>;
const void * a_cube(const BrillouinZoneTrellis3<double,cd,double> & t, ind_t i) { return &t.cube_node(i); }
const void * a_poly(const BrillouinZoneTrellis3<double,cd,double> & t, ind_t i) { return &t.poly_node(i); }
Array2<double> a_vector(const GammaTable & g, ind_t k, ind_t r) { return g.vector(k, r); }
size_t a_val(Array2<unsigned long> & a, ind_t k, ind_t r) { return a.val(k, r) + a.size(0); }
}
