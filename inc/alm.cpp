// Instantiation of the real templates of ls_alm.h for the element types the library uses; no code of its own.
#include "ls_alm.h"
#include "ls_xcomplex.h"
#include "alm.cc"
namespace levels {
template class Alm<xcomplex<float> >;
template void Alm<xcomplex<float> >::Scale<double>(const double &);
template void Alm<xcomplex<float> >::ScaleL<double>(const arr<double> &);
template void Alm<xcomplex<float> >::ScaleM<double>(const arr<double> &);
template void Alm<xcomplex<float> >::Add<xcomplex<float> >(const xcomplex<float> &);
}
