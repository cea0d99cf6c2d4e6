// Instantiates the Python array bridge so that it is analysed with resolved types. Never linked or run.
#include <pybind11/pybind11.h>
#include "_array.hpp"
void use_wrap(pybind11::module& m, brille::Array<double>& a, brille::Array2<double>& b, pybind11::array_t<double> p){
  declare_array<double>(m, "d");
  declare_array2<double>(m, "d");
  (void)brille::a2py(a); (void)brille::a2py(b);
  (void)brille::a2py(brille::Array<double>(a)); (void)brille::a2py(brille::Array2<double>(b));
  (void)brille::py2a(p); (void)brille::py2a2(p);
}
