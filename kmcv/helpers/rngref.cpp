// The C++ standard engines the random number generators of the library are named after.
#include <random>
#include <limits>
#include <cstring>

template <class E> static void draw(int seed, double *out, int n)
{
    E e(seed);
    for (int i = 0; i < n; ++i)
        out[i] = std::generate_canonical<double, 32>(e);
}

// kind: 0 MT, 1 MINSTD, 2 RANLUX24, 3 RANLUX48
extern "C" void rngref(int kind, int seed, double *out, int n)
{
    switch (kind) {
    case 0: draw<std::mt19937>(seed, out, n); break;
    case 1: draw<std::minstd_rand>(seed, out, n); break;
    case 2: draw<std::ranlux24>(seed, out, n); break;
    case 3: draw<std::ranlux48>(seed, out, n); break;
    }
}
