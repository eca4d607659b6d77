// One estimator update between two toggles of the LED: what the timing program is compared with.
#define main kv_timing_main
#include "time/avr-kalman-time.cpp"
#undef main
int main() {
    DDRB = 1 << 5;
    const kalman::real_t dt = 1;
    kalman::real_t measnoise = 10, accelnoise = 0.2;
    kalman::A_t A = { 1, dt, 0, 1 };
    kalman::B_t B = { dt * dt / 2, dt };
    kalman::H_t H = { 1, 0 };
    kalman::x_t x = { 0, 0 };
    auto R = measnoise * measnoise;
    auto Q = accelnoise * accelnoise * kalman::Q_t({ dt*dt*dt*dt/4, dt*dt*dt/2, dt*dt*dt/2, dt*dt });
    kalman estim(dt, A, B, H, Q, R, Q, x);
    const kalman::u_t u(1);
    x = A * x + B * u;
    auto z = H * x;
    asm volatile("" : : "r"(&estim), "r"(&u), "r"(&z) : "memory");
    for (;;) {
        PORTB ^= 1 << 5;
        estim.update(u, z);
        asm volatile("" : : "r"(&estim) : "memory");
    }
}
