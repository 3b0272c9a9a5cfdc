// The check owns the clock: steady_clock, system_clock and nanosleep are replaced for the whole program, so that no
// outcome depends on real time. Link simclock.cpp.
#pragma once
#include <chrono>
#include <cstdint>
namespace sim
{
    void resetClock();
    // nanoseconds since the start of the case
    int64_t nowNs();
    void advanceNs(int64_t ns);
    inline void advance(std::chrono::nanoseconds d)
    {
        advanceNs(d.count());
    }
    // every call of steady_clock::now() also moves the clock by this much (0 by default)
    void setTickNs(int64_t ns);
    std::chrono::steady_clock::time_point epoch();
}
