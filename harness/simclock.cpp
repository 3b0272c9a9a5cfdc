#include "simclock.h"
#include <atomic>
#include <cerrno>
#include <ctime>
#include <thread>
namespace
{
    const int64_t EPOCH = 1000000000000ll; // 1000 s, so that subtracting intervals stays positive
    std::atomic<int64_t> Now{EPOCH};
    std::atomic<int64_t> Tick{0};
}
namespace sim
{
    void resetClock()
    {
        Now = EPOCH;
        Tick = 0;
    }
    int64_t nowNs()
    {
        return Now - EPOCH;
    }
    void advanceNs(int64_t ns)
    {
        if (ns > 0)
            Now += ns;
    }
    void setTickNs(int64_t ns)
    {
        Tick = ns;
    }
    std::chrono::steady_clock::time_point epoch()
    {
        return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(EPOCH));
    }
}
namespace std
{
    namespace chrono
    {
        inline namespace _V2
        {
            steady_clock::time_point steady_clock::now() noexcept
            {
                Now += Tick;
                return time_point(nanoseconds(Now.load()));
            }
            system_clock::time_point system_clock::now() noexcept
            {
                Now += Tick;
                return time_point(duration_cast<duration>(nanoseconds(Now.load() + 1700000000000000000ll)));
            }
        }
    }
}
extern "C" int nanosleep(const struct timespec* req, struct timespec*)
{
    sim::advanceNs(req->tv_sec * 1000000000ll + req->tv_nsec);
    return 0;
}
extern "C" int clock_nanosleep(clockid_t, int flags, const struct timespec* req, struct timespec*)
{
    if (!(flags & TIMER_ABSTIME))
        sim::advanceNs(req->tv_sec * 1000000000ll + req->tv_nsec);
    return 0;
}
extern "C" int usleep(unsigned us)
{
    sim::advanceNs(us * 1000ll);
    return 0;
}
