#pragma once
#include_next <blas/util.hh>
#ifndef VERIF_BLAS_FROM_STRING
#define VERIF_BLAS_FROM_STRING
#include <string>
namespace blas {
inline void from_string(const std::string& s, Uplo* u) { *u = char2uplo(s.empty() ? '?' : s[0]); }
inline const char* to_c_string(Uplo u) { return uplo2str(u); }
inline const char* to_c_string(Op u) { return op2str(u); }
inline const char* to_c_string(Side u) { return side2str(u); }
inline const char* to_c_string(Diag u) { return diag2str(u); }
inline const char* to_c_string(Layout u) { return layout2str(u); }
}
#endif
