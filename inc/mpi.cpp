// The real MPI helpers and instantiations of the real templates of ls_mpi_support.h; no code of its own.
#include "ls_error_handling.h"
#include "mpi_support.cc"
namespace levels {
template void MPI_Manager::all2allv_easy<double>(const arr<double> &, const arr<int> &, arr<double> &, arr<int> &) const;
template void MPI_Manager::all2allv<double>(const arr<double> &, const arr<int> &, const arr<int> &, arr<double> &, const arr<int> &, const arr<int> &, tsize) const;
template void MPI_Manager::gatherv_m<double>(const arr<double> &, arr<double> &) const;
template void MPI_Manager::gatherv_m<double>(const arr2<double> &, arr2<double> &) const;
template void MPI_Manager::gatherv_s<double>(const arr<double> &) const;
template void MPI_Manager::gatherv_s<double>(const arr2<double> &) const;
template void MPI_Manager::gatherv<double>(const arr<double> &, arr<double> &) const;
template void MPI_Manager::gather_m<double>(const double &, arr<double> &, int) const;
template void MPI_Manager::gather_s<double>(const double &, int) const;
template void MPI_Manager::all2all<double>(const arr<double> &, arr<double> &) const;
template void MPI_Manager::allgather<double>(const arr<double> &, arr<double> &) const;
template void MPI_Manager::allgather<double>(const double &, arr<double> &) const;
template void MPI_Manager::allreduce<double>(const arr<double> &, arr<double> &, MPI_Manager::redOp) const;
template void MPI_Manager::allreduce<double>(const double &, double &, MPI_Manager::redOp) const;
template void MPI_Manager::allreduce<double>(arr<double> &, MPI_Manager::redOp) const;
template void MPI_Manager::allreduce<double>(double &, MPI_Manager::redOp) const;
template void MPI_Manager::reduceRaw<double>(const double *, double *, tsize, MPI_Manager::redOp, int) const;
template void MPI_Manager::bcast<double>(arr<double> &, int) const;
template void MPI_Manager::bcast<double>(double &, int) const;
template void MPI_Manager::send<double>(const arr<double> &, tsize) const;
template void MPI_Manager::send<double>(const double &, tsize) const;
template void MPI_Manager::recv<double>(arr<double> &, tsize) const;
template void MPI_Manager::recv<double>(double &, tsize) const;
template void MPI_Manager::sendrecv<double>(const arr<double> &, tsize, arr<double> &, tsize) const;
template void MPI_Manager::sendrecv<double>(const double &, tsize, double &, tsize) const;
template void MPI_Manager::sendrecv_replace<double>(arr<double> &, tsize, tsize) const;
}
