// Single-threaded checks: waiting on a condition variable moves the clock to the end of the wait. A hook may do
// something in the meantime (what another thread would have done) and end the wait earlier.
#include "simwait.h"
#include "simclock.h"
#include <cerrno>
#include <pthread.h>
#include <time.h>
namespace sim
{
    std::function<int64_t(int64_t)> onWait;
}
static int waitUntil(int64_t until)
{
    if (sim::onWait) {
        // the hook returns the moment of the wake-up, or -1
        int64_t t = sim::onWait(until);
        if (t >= 0) {
            sim::advanceNs(t - sim::nowNs());
            return 0;
        }
    }
    sim::advanceNs(until - sim::nowNs());
    return ETIMEDOUT;
}
extern "C" int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const struct timespec* t)
{
    int64_t abs = t->tv_sec * 1000000000ll + t->tv_nsec;
    pthread_mutex_unlock(m);
    // the mutex is locked again in any case
    struct Lock
    {
        pthread_mutex_t* M;
        ~Lock()
        {
            pthread_mutex_lock(M);
        }
    } lock{m};
    return waitUntil(abs - sim::epoch().time_since_epoch().count());
}
