#pragma once
#include_next <lapack/util.hh>
#ifndef VERIF_LAPACK_TO_C_STRING
#define VERIF_LAPACK_TO_C_STRING
namespace lapack {
inline const char* to_c_string(MatrixType t) { return matrixtype2str(t); }
}
#endif
