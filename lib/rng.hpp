#ifndef VF_RNG_HPP
#define VF_RNG_HPP
// deterministic random numbers
#include <cstdint>
#include <cstddef>
#include <vector>
namespace vf {
inline uint64_t mix64(uint64_t z)
{   z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
    // uniform in 0..n-1
    int below(int n) { return n <= 1 ? 0 : int(next() % uint64_t(n)); }
    size_t sbelow(size_t n) { return n <= 1 ? 0 : size_t(next() % uint64_t(n)); }
    int range(int lo, int hi) { return lo + below(hi - lo + 1); }
    double uni() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double lo, double hi) { return lo + (hi - lo) * uni(); }
    bool chance(double p) { return uni() < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[sbelow(v.size())]; }
    template <class T> void shuffle(std::vector<T>& v)
    {   for(size_t i = v.size(); i > 1; --i) { size_t j = sbelow(i); T t = v[i-1]; v[i-1] = v[j]; v[j] = t; } }
};
} // namespace vf
#endif
