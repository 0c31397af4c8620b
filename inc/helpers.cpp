// Instantiation of the real helper templates; no code of its own.
#include "ls_math_utils.h"
#include "ls_share_utils.h"
#include "ls_safe_cast.h"
namespace levels {
template int imodulo<int>(int, int);
template int64 imodulo<int64>(int64, int64);
template int sign<int>(const int &);
template double sign<double>(const double &);
template double xpow<double, int>(int, double);
template double xpow<double, long>(long, double);
template int xpow<int, int>(int, int);
template uint32 isqrt<int>(int);
template uint32 isqrt<int64>(int64);
template uint32 isqrt<uint64>(uint64);
template int ilog2<int>(int);
template int ilog2<int64>(int64);
template int ilog2<uint32>(uint32);
template int ilog2<uint64>(uint64);
template int ifloor<int, double>(double);
template int nearest<int, double>(double);
template bool approx<double>(double, double, double);
template bool abs_approx<double>(double, double, double);
template bool multiequal<double>(const double &, const double &, const double &);
template bool multiequal<double>(const double &, const double &, const double &, const double &);
template int safe_cast<int, long>(const long &);
template int safe_cast<int, unsigned long>(const unsigned long &);
template unsigned int safe_cast<unsigned int, long>(const long &);
template unsigned int safe_cast<unsigned int, unsigned long>(const unsigned long &);
}
