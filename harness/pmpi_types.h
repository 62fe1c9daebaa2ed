// Ledger of MPI datatypes through the MPI profiling interface.
#pragma once
#include <mpi.h>

#include <map>
#include <set>
#include <string>
namespace ledger {
inline std::set<MPI_Datatype> created, committed;
inline long n_created = 0, n_freed = 0, errors = 0;
inline std::string last_error;
inline void err(const std::string& e) {
  ++errors;
  last_error = e;
}
inline int add(int rc, MPI_Datatype* t) {
  if (rc == MPI_SUCCESS) {
    created.insert(*t);
    ++n_created;
  }
  return rc;
}
inline void use(MPI_Datatype t, const char* where) {
  if (created.count(t) && !committed.count(t))
    err(std::string("uncommitted datatype used in ") + where);
}
}
extern "C" {
int MPI_Type_vector(int a, int b, int c, MPI_Datatype o, MPI_Datatype* n) { return ledger::add(PMPI_Type_vector(a, b, c, o, n), n); }
int MPI_Type_create_hvector(int a, int b, MPI_Aint c, MPI_Datatype o, MPI_Datatype* n) { return ledger::add(PMPI_Type_create_hvector(a, b, c, o, n), n); }
int MPI_Type_contiguous(int a, MPI_Datatype o, MPI_Datatype* n) { return ledger::add(PMPI_Type_contiguous(a, o, n), n); }
int MPI_Type_indexed(int a, const int* b, const int* c, MPI_Datatype o, MPI_Datatype* n) { return ledger::add(PMPI_Type_indexed(a, b, c, o, n), n); }
int MPI_Type_create_hindexed(int a, const int* b, const MPI_Aint* c, MPI_Datatype o, MPI_Datatype* n) { return ledger::add(PMPI_Type_create_hindexed(a, b, c, o, n), n); }
int MPI_Type_create_indexed_block(int a, int b, const int* c, MPI_Datatype o, MPI_Datatype* n) { return ledger::add(PMPI_Type_create_indexed_block(a, b, c, o, n), n); }
int MPI_Type_create_struct(int a, const int* b, const MPI_Aint* c, const MPI_Datatype* d, MPI_Datatype* n) { return ledger::add(PMPI_Type_create_struct(a, b, c, d, n), n); }
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint a, MPI_Aint b, MPI_Datatype* n) { return ledger::add(PMPI_Type_create_resized(o, a, b, n), n); }
int MPI_Type_create_subarray(int a, const int* b, const int* c, const int* d, int e, MPI_Datatype o, MPI_Datatype* n) { return ledger::add(PMPI_Type_create_subarray(a, b, c, d, e, o, n), n); }
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype* n) { return ledger::add(PMPI_Type_dup(o, n), n); }
int MPI_Type_commit(MPI_Datatype* t) {
  ledger::committed.insert(*t);
  return PMPI_Type_commit(t);
}
int MPI_Type_free(MPI_Datatype* t) {
  if (*t == MPI_DATATYPE_NULL || !ledger::created.count(*t)) {
    ledger::err("free of a datatype that is not alive");
    *t = MPI_DATATYPE_NULL;
    return MPI_SUCCESS;
  }
  ledger::created.erase(*t);
  ledger::committed.erase(*t);
  ++ledger::n_freed;
  return PMPI_Type_free(t);
}
}
