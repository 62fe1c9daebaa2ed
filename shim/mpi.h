// In-process stand-in for the subset of MPI that DLA-Future uses: the ranks are simulated by vrt.
#pragma once
#include <cstddef>
#include <functional>

struct vmpi_comm;
struct vmpi_type;
struct vmpi_op;
struct vmpi_req;
using MPI_Comm = vmpi_comm*;
using MPI_Datatype = vmpi_type*;
using MPI_Op = vmpi_op*;
using MPI_Request = vmpi_req*;
using MPI_Aint = std::ptrdiff_t;
using MPI_Info = void*;
using MPI_Errhandler = void*;
struct MPI_Status {
  int MPI_SOURCE, MPI_TAG, MPI_ERROR;
  long bytes;
};
extern vmpi_comm vmpi_world, vmpi_self_;
extern MPI_Comm vmpi_self();
#define MPI_COMM_NULL (static_cast<MPI_Comm>(nullptr))
#define MPI_COMM_WORLD (&vmpi_world)
#define MPI_COMM_SELF (vmpi_self())
#define MPI_REQUEST_NULL (static_cast<MPI_Request>(nullptr))
#define MPI_DATATYPE_NULL (static_cast<MPI_Datatype>(nullptr))
#define MPI_INFO_NULL nullptr
#define MPI_STATUS_IGNORE (static_cast<MPI_Status*>(nullptr))
#define MPI_STATUSES_IGNORE (static_cast<MPI_Status*>(nullptr))
#define MPI_IN_PLACE (reinterpret_cast<void*>(-1))
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_MAX_ERROR_STRING 256
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_ERRORS_RETURN (static_cast<MPI_Errhandler>(nullptr))
#define MPI_ERRORS_ARE_FATAL (static_cast<MPI_Errhandler>(nullptr))

extern vmpi_type vt_char, vt_schar, vt_uchar, vt_byte, vt_short, vt_ushort, vt_int, vt_uint, vt_long, vt_ulong, vt_llong, vt_ullong,
    vt_float, vt_double, vt_cfloat, vt_cdouble, vt_bool;
#define MPI_CHAR (&vt_char)
#define MPI_SIGNED_CHAR (&vt_schar)
#define MPI_UNSIGNED_CHAR (&vt_uchar)
#define MPI_BYTE (&vt_byte)
#define MPI_SHORT (&vt_short)
#define MPI_UNSIGNED_SHORT (&vt_ushort)
#define MPI_INT (&vt_int)
#define MPI_UNSIGNED (&vt_uint)
#define MPI_LONG (&vt_long)
#define MPI_UNSIGNED_LONG (&vt_ulong)
#define MPI_LONG_LONG (&vt_llong)
#define MPI_LONG_LONG_INT (&vt_llong)
#define MPI_UNSIGNED_LONG_LONG (&vt_ullong)
#define MPI_FLOAT (&vt_float)
#define MPI_DOUBLE (&vt_double)
#define MPI_C_BOOL (&vt_bool)
#define MPI_CXX_BOOL (&vt_bool)
#define MPI_C_FLOAT_COMPLEX (&vt_cfloat)
#define MPI_C_DOUBLE_COMPLEX (&vt_cdouble)
#define MPI_CXX_FLOAT_COMPLEX (&vt_cfloat)
#define MPI_CXX_DOUBLE_COMPLEX (&vt_cdouble)
#define MPI_INT64_T (&vt_long)
#define MPI_UINT64_T (&vt_ulong)
extern vmpi_op vo_sum, vo_max, vo_min, vo_prod, vo_land, vo_lor;
#define MPI_SUM (&vo_sum)
#define MPI_MAX (&vo_max)
#define MPI_MIN (&vo_min)
#define MPI_PROD (&vo_prod)
#define MPI_LAND (&vo_land)
#define MPI_LOR (&vo_lor)

extern "C" {
extern int vmpi_initialized, vmpi_thread_level;
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Init(int*, char***);
int MPI_Finalize();
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Query_thread(int*);
int MPI_Abort(MPI_Comm, int);
int MPI_Error_string(int, char*, int*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*);
int MPI_Type_commit(MPI_Datatype*);
int MPI_Type_free(MPI_Datatype*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Ireduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Request*);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Barrier(MPI_Comm);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
}
/// Run f (on the rank of the request) when the request is complete; releases the request.
void vmpi_when_complete(MPI_Request, std::function<void()> f);
/// Bookkeeping for drivers.
struct vmpi_stats {
  long comms_created = 0, comms_freed = 0, types_created = 0, types_freed = 0;
};
extern vmpi_stats vmpi_st;
#define MPI_UNEQUAL 3
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
