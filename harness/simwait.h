#pragma once
#include <cstdint>
#include <functional>
namespace sim
{
    // called with the end of the wait (sim::nowNs() scale); returns the time to wake up at, or -1 to let it expire
    extern std::function<int64_t(int64_t)> onWait;
}
