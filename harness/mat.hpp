#ifndef KV_MAT_HPP
#define KV_MAT_HPP
#include "trace.hpp"
#include "num/matrix.hpp"
namespace kv {
// a matrix as a sequence of rows, read through at(row, col)
template< typename T, int N, int M >
std::string rows(num::matrix<T,N,M> const & m) {
    std::string r = "[";
    for (int i = 0; i < N; ++i) {
        r += i ? ",[" : "[";
        for (int j = 0; j < M; ++j) { if (j) r += ','; r += js((T)m.at(i, j)); }
        r += "]";
    }
    return r + "]";
}
}
#endif
