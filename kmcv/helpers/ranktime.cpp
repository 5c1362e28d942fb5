// A clock that is off by an hour from one MPI process to the next.
#include <ctime>
#include <cstdlib>
extern "C" time_t time(time_t *out) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    const char *r = getenv("OMPI_COMM_WORLD_RANK");
    time_t t = ts.tv_sec + 3600 * (r ? atoi(r) : 0);
    if (out) *out = t;
    return t;
}
