// Deterministic entropy for the harness: std::random_device is the only source
// of entropy the library uses (it seeds one generator per thread and per
// translation unit), so replacing _M_getval makes a run a function of
// VERIF_SEED while keeping every generator instance distinct.  The stream is
// SplitMix64 over a process-wide atomic counter, so two generators never get
// the same words, whatever the order in which threads seed them.
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <random>
namespace {
std::uint64_t base()
{
    static const std::uint64_t b = [] {
        const char* s = std::getenv("VERIF_SEED");
        return (s ? std::strtoull(s, nullptr, 10) : 1ULL) * 0x9E3779B97F4A7C15ULL + 0x1234567ULL;
    }();
    return b;
}
std::atomic<std::uint64_t> ctr{0};
}  // namespace
extern "C" std::uint64_t verif_entropy_draws() { return ctr.load(); }
std::random_device::result_type std::random_device::_M_getval()
{
    std::uint64_t z = base() + (ctr.fetch_add(1) + 1) * 0x9E3779B97F4A7C15ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    z ^= z >> 31;
    return static_cast<result_type>(z >> 16);
}
