// Simulator-owned randomness and clocks for the C++ part of the system (linked into the private extension module).
#include <cstdint>
#include <ctime>

namespace dst {
static std::uint64_t state = 0x9e3779b97f4a7c15ULL;
static std::uint64_t draws = 0;
static std::int64_t  vtime = 1700000000LL * 1000000000LL; // virtual nanoseconds
static std::int64_t  vtick = 1000;                        // advance per clock read
static std::uint64_t reads = 0;
static std::uint64_t jstate = 0;
static std::int64_t  jitter = 0;      // maximal extra advance per read (ns)
static std::uint64_t stepEvery = 0;   // step the system clock at every n-th read
static std::int64_t  stepBy = 0;
static std::int64_t  sysOffset = 0;
static std::uint64_t steps = 0;

static std::uint64_t next() {
    state += 0x9e3779b97f4a7c15ULL;
    std::uint64_t z = state;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
std::uint32_t nextRandomDevice() {
    draws++;
    return static_cast<std::uint32_t>(next() >> 32);
}
} // namespace dst

extern "C" {
#define DST_API __attribute__((visibility("default")))
std::time_t __wrap_time(std::time_t* out) {
    auto t = static_cast<std::time_t>(dst::vtime / 1000000000LL);
    if (out != nullptr) { *out = t; }
    return t;
}
// every read advances virtual time by a tick plus seeded jitter; the system clock may additionally be stepped (faults)
static std::int64_t clk() {
    dst::reads++;
    dst::vtime += dst::vtick;
    if (dst::jitter > 0) {
        dst::jstate = dst::jstate * 6364136223846793005ULL + 1442695040888963407ULL;
        dst::vtime += static_cast<std::int64_t>((dst::jstate >> 33) % static_cast<std::uint64_t>(dst::jitter));
    }
    if (dst::stepEvery > 0 && dst::reads % dst::stepEvery == 0) { dst::sysOffset += dst::stepBy; dst::steps++; }
    return dst::vtime;
}
std::int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
    auto t = clk();
    return t + dst::sysOffset;
}
std::int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return clk(); }
DST_API void dst_clock_faults(std::uint64_t seed, std::int64_t jitter, std::uint64_t every, std::int64_t by) {
    dst::jstate = seed; dst::jitter = jitter; dst::stepEvery = every; dst::stepBy = by; dst::sysOffset = 0; dst::steps = 0;
}
DST_API std::uint64_t dst_clock_steps() { return dst::steps; }
DST_API void dst_seed(std::uint64_t s) { dst::state = s; dst::draws = 0; }
DST_API std::uint64_t dst_draws() { return dst::draws; }
DST_API void dst_set_clock(std::int64_t nanos, std::int64_t tick) { dst::vtime = nanos; dst::vtick = tick; dst::jitter = 0; dst::stepEvery = 0; dst::sysOffset = 0; dst::reads = 0; }
DST_API std::uint64_t dst_clock_reads() { return dst::reads; }
}
