// Force-included into every translation unit of the code under test (see build.py).
// Replaces std::random_device by a stream the simulator owns.  Clocks (time(), std::chrono clocks) are redirected at
// link time with --wrap, so the sources need no change for them.
#pragma once
#include <cstdint>
#include <random>
#include <string>

namespace dst {
std::uint32_t nextRandomDevice();
}

namespace std {
class dst_random_device {
public:
    using result_type = unsigned int;
    dst_random_device() = default;
    explicit dst_random_device(const std::string&) {}
    dst_random_device(const dst_random_device&)            = delete;
    dst_random_device& operator=(const dst_random_device&) = delete;
    static constexpr result_type min() { return 0U; }
    static constexpr result_type max() { return 0xffffffffU; }
    double entropy() const noexcept { return 32.0; }
    result_type operator()() { return dst::nextRandomDevice(); }
};
} // namespace std
#define random_device dst_random_device
