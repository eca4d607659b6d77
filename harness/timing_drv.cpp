// The estimator of the timing program, driven like that of the library.
#define main kv_timing_main
#include "time/avr-kalman-time.cpp"
#undef main
#define NUM_KALMAN_HPP_INCLUDED     // num::kalman is the program's
#define KV_SINGLE
#include <cstdlib>
#include <new>
// the gain of an estimator that holds it is whatever it was before
void * operator new(std::size_t n) { void * p = std::malloc(n + 8); for (std::size_t i = 0; i < n / 8 + 1; ++i) static_cast<double *>(p)[i] = (double)(i % 5) * 0.25 - 0.375; return p; }
void operator delete(void * p) noexcept { std::free(p); }
void operator delete(void * p, std::size_t) noexcept { std::free(p); }
#include "kalman_drv.cpp"
