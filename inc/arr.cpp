// Instantiation of the real container templates of ls_arr.h; no code of its own.
#include "ls_error_handling.h"
#include "ls_arr.h"
namespace levels {

template class normalAlloc__<double>;
template void arr_ref<double>::fill(const double &);
template double &arr_ref<double>::operator[]<long>(long);
template const double &arr_ref<double>::operator[]<long>(long) const;
template void arr_ref<double>::minmax(double &, double &) const;
template bool arr_ref<double>::contains(const double &) const;
template tsize arr_ref<double>::find(const double &) const;
template bool arr_ref<double>::contentsEqual(const arr_ref<double> &) const;
template arrT<double, normalAlloc__<double>>::arrT();
template arrT<double, normalAlloc__<double>>::arrT(tsize);
template arrT<double, normalAlloc__<double>>::arrT(tsize, const double &);
template arrT<double, normalAlloc__<double>>::arrT(double *, tsize);
template arrT<double, normalAlloc__<double>>::arrT(const arrT<double, normalAlloc__<double>> &);
template arrT<double, normalAlloc__<double>>::~arrT();
template void arrT<double, normalAlloc__<double>>::alloc(tsize);
template void arrT<double, normalAlloc__<double>>::allocAndFill(tsize, const double &);
template void arrT<double, normalAlloc__<double>>::dealloc();
template void arrT<double, normalAlloc__<double>>::resize(tsize);
template arrT<double, normalAlloc__<double>> &arrT<double, normalAlloc__<double>>::operator=(const arrT<double, normalAlloc__<double>> &);
template void arrT<double, normalAlloc__<double>>::copyFrom<double>(const std::vector<double> &);
template void arrT<double, normalAlloc__<double>>::copyTo<double>(std::vector<double> &) const;
template void arrT<double, normalAlloc__<double>>::copyFromPtr<double>(const double *, tsize);
template void arrT<double, normalAlloc__<double>>::transfer(arrT<double, normalAlloc__<double>> &);
template void arrT<double, normalAlloc__<double>>::swap(arrT<double, normalAlloc__<double>> &);
template class arr2T<double, normalAlloc__<double>>;
template double *arr2T<double, normalAlloc__<double>>::operator[]<long>(long);
template const double *arr2T<double, normalAlloc__<double>>::operator[]<long>(long) const;
template double &arr2T<double, normalAlloc__<double>>::operator()<long, long>(long, long);
template const double &arr2T<double, normalAlloc__<double>>::operator()<long, long>(long, long) const;
template bool arr2T<double, normalAlloc__<double>>::conformable<double, normalAlloc__<double>>(const arr2T<double, normalAlloc__<double>> &) const;
template class arr3<double>;
template double &arr3<double>::operator()<long, long, long>(long, long, long);
template const double &arr3<double>::operator()<long, long, long>(long, long, long) const;
template bool arr3<double>::conformable<double>(const arr3<double> &) const;
}
