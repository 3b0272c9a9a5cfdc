// P03: rate limiter, time balance, running average and elapsed time against direct models.
#include "common_utils.h"
#include "pbt.h"
#include "poll_plan.h"
#include "running_average.h"
const char* PROPERTY_ID = "P03";
const char* NONTRIVIAL_RULE =
    "one case = a history of up to 80 read items at generated times with a generated limit. Non-trivial: the limit was "
    "exceeded and later a new window was opened";
using namespace pbt;
using namespace std::chrono;
using TP = steady_clock::time_point;

static void Average(Gen& g)
{
    int64_t init = g.range(0, 1000000);
    TRunningAverage<microseconds, 10> a{microseconds(init)};
    TRunningAverage<int64_t, 3> b(init);
    int64_t ma = init, mb = init;
    std::ostringstream log;
    log << "start " << init;
    size_t n = g.size(0, 30);
    for (size_t i = 0; i < n; ++i) {
        int64_t v = g.range(0, 2000000);
        log << ", " << v;
        int64_t pa = ma, pb = mb;
        a.AddValue(microseconds(v));
        b.AddValue(v);
        ma = (9 * ma + v) / 10;
        mb = (2 * mb + v) / 3;
        PBT_EQ(a.GetValue().count(), ma, log.str() << ": average over 10");
        PBT_EQ(b.GetValue(), mb, log.str() << ": average over 3");
        PBT_CHECK(a.GetValue().count() >= std::min(pa, v) && a.GetValue().count() <= std::max(pa, v), log.str() << ": average outside of the values");
        PBT_CHECK(b.GetValue() >= std::min(pb, v) && b.GetValue() <= std::max(pb, v), log.str() << ": average outside of the values");
    }
    PBT_EQ(a.GetValue().count(), ma, log.str() << ": average over 10");
    label("running average");
}

static void Spent(Gen& g)
{
    TP now = TP() + nanoseconds(g.range(0, 1000000000));
    util::TSpentTimeMeter m([&] { return now; });
    for (int i = 0; i < 3; ++i) {
        m.Start();
        TP start = now;
        PBT_CHECK(m.GetStartTime() == start, "start time");
        for (int j = 0; j < 3; ++j) {
            now += nanoseconds(g.range(0, 5000000));
            int64_t ns = duration_cast<nanoseconds>(now - start).count();
            PBT_EQ(m.GetSpentTime().count(), (ns + 999) / 1000, "elapsed microseconds of " << ns << " ns");
            PBT_CHECK(m.GetStartTime() == start, "start time changes");
        }
    }
    label("elapsed time");
}

void property(Gen& g)
{
    switch (g.weighted({6, 1, 1})) {
        case 1:
            return Average(g);
        case 2:
            return Spent(g);
    }
    size_t limit = g.weighted({1, 5}) ? g.range(1, 12) : 0;
    TRateLimiter r(limit);
    std::ostringstream log;
    log << "limit " << limit << ", items at ms:";
    int64_t t = g.range(0, 30000) * 100; // microseconds * 1000
    int64_t window = 0, count = 0;       // ms
    bool exceeded = false, reopened = false;
    size_t n = g.size(1, 80);
    auto over = [&](int64_t at) { return limit != 0 && at - window <= 1000 && count > int64_t(limit); };
    auto tp = [](int64_t ms) { return TP() + milliseconds(ms); };
    for (size_t i = 0; i < n; ++i) {
        switch (g.weighted({6, 2, 1})) {
            case 0:
                t += g.range(0, 60);
                break;
            case 1:
                t += g.range(0, 1100);
                break;
            default:
                t += g.range(0, 5000);
        }
        if (g.chance(1, 8))
            t = (t + 999) / 1000 * 1000;
        PBT_EQ(r.IsOverLimit(tp(t)), over(t), log.str() << ": over the limit before an item at " << t);
        if (g.chance(1, 6))
            continue;
        r.NewItem(tp(t));
        log << " " << t;
        if (limit) {
            if (t - window <= 1000) {
                ++count;
            } else {
                reopened = reopened || exceeded;
                count = 1;
                window = t / 1000 * 1000;
            }
        }
        exceeded = exceeded || over(t);
        PBT_EQ(r.IsOverLimit(tp(t)), over(t), log.str() << ": over the limit after an item at " << t);
        PBT_EQ(duration_cast<milliseconds>(r.GetStartTime().time_since_epoch()).count(), window, log.str() << ": start of the window");
        auto later = t + int64_t(g.range(0, 2000));
        PBT_EQ(r.IsOverLimit(tp(later)), over(later), log.str() << ": over the limit at " << later);
    }
    g.note(log.str());
    evaluations(n);
    labelIf(!limit, "no limit");
    labelIf(exceeded, "limit exceeded");
    labelIf(reopened, "new window after exceeding");
    if (exceeded && reopened)
        nontrivial();
    if (wantSample())
        sample(log.str());
}
