// P01: the schedule queue against a list, for any history of operations.
#include "poll_plan.h"
#include "pbt.h"
#include <map>
const char* PROPERTY_ID = "P01";
const char* NONTRIVIAL_RULE =
    "one case = a history of up to 60 operations on one queue. Non-trivial: at least 3 entries are taken out, at least "
    "one of them by removal from the middle or with equal deadlines present";
using namespace pbt;
using namespace std::chrono;
using TP = steady_clock::time_point;

namespace
{
    struct Rank // order of entries with the same deadline: by value modulo 7, the biggest first
    {
        bool operator()(int a, int b) const
        {
            return a % 7 < b % 7;
        }
    };
    struct E
    {
        int D;
        TP T;
    };
}

void property(Gen& g)
{
    TPriorityQueueSchedule<int, Rank> q;
    std::vector<E> m;
    std::ostringstream log;
    size_t n = g.size(1, 60), taken = 0, middle = 0, ties = 0;
    int next = 0;
    auto tp = [](int64_t ms) { return TP() + milliseconds(ms); };
    for (size_t i = 0; i < n; ++i) {
        switch (g.weighted({5, 4, 2, 2, 2})) {
            case 0: {
                int64_t t = g.range(0, 12);
                int d = g.chance(1, 6) && next ? int(g.below(next)) : next++;
                q.AddEntry(d, tp(t));
                m.push_back({d, tp(t)});
                log << "add " << d << " at " << t << "; ";
                break;
            }
            case 1: {
                log << "take; ";
                if (m.empty())
                    break;
                auto top = q.GetTop();
                TP best = m[0].T;
                for (auto& e: m)
                    best = std::min(best, e.T);
                PBT_CHECK(top.Deadline == best, log.str() << ": entry with deadline " << duration_cast<milliseconds>(top.Deadline.time_since_epoch()).count()
                                                          << " is first, but there is one with " << duration_cast<milliseconds>(best.time_since_epoch()).count());
                int same = 0;
                for (auto& e: m)
                    if (e.T == best) {
                        ++same;
                        PBT_CHECK(!Rank()(top.Data, e.D), log.str() << ": " << top.Data << " goes before " << e.D << " at the same deadline");
                    }
                ties += same > 1;
                auto it = std::find_if(m.begin(), m.end(), [&](auto& e) { return e.D == top.Data && e.T == top.Deadline; });
                PBT_CHECK(it != m.end(), log.str() << ": entry " << top.Data << " was not added");
                m.erase(it);
                q.Pop();
                ++taken;
                break;
            }
            case 2: {
                if (!next)
                    break;
                int d = g.below(next + 1);
                log << "remove " << d << "; ";
                q.Remove(d);
                // one of the equal entries goes; which one is not specified, so only unique ones are removed by the model
                size_t cnt = std::count_if(m.begin(), m.end(), [&](auto& e) { return e.D == d; });
                if (cnt == 1) {
                    m.erase(std::find_if(m.begin(), m.end(), [&](auto& e) { return e.D == d; }));
                    ++middle;
                    ++taken;
                } else if (cnt > 1) {
                    // find out which by draining a copy
                    auto c = q;
                    std::vector<E> left;
                    while (!c.IsEmpty()) {
                        left.push_back({c.GetTop().Data, c.GetTop().Deadline});
                        c.Pop();
                    }
                    PBT_EQ(left.size(), m.size() - 1, log.str() << ": entries left after the removal");
                    auto rest = m;
                    for (auto& e: left) {
                        auto it = std::find_if(rest.begin(), rest.end(), [&](auto& x) { return x.D == e.D && x.T == e.T; });
                        PBT_CHECK(it != rest.end(), log.str() << ": removal damaged entry " << e.D);
                        rest.erase(it);
                    }
                    PBT_CHECK(rest.size() == 1 && rest[0].D == d, log.str() << ": another entry was removed");
                    m = left;
                }
                break;
            }
            case 3: {
                int d = g.below(next + 1);
                bool want = std::any_of(m.begin(), m.end(), [&](auto& e) { return e.D == d; });
                PBT_EQ(q.Contains(d), want, log.str() << ": entry " << d << " is present");
                break;
            }
            default: {
                int64_t t = int64_t(g.range(0, 14)) - 1;
                bool want = std::any_of(m.begin(), m.end(), [&](auto& e) { return e.T <= tp(t); });
                PBT_EQ(q.HasReadyItems(tp(t)), want, log.str() << ": something is due at " << t);
            }
        }
        PBT_EQ(q.IsEmpty(), m.empty(), log.str() << ": empty");
        TP best = TP::max();
        for (auto& e: m)
            best = std::min(best, e.T);
        PBT_CHECK(q.GetDeadline() == best, log.str() << ": nearest deadline is wrong");
    }
    g.note(log.str());
    // the rest comes out in order and complete
    while (!m.empty()) {
        PBT_CHECK(!q.IsEmpty(), log.str() << ": entries are lost");
        auto top = q.GetTop();
        auto it = std::find_if(m.begin(), m.end(), [&](auto& e) { return e.D == top.Data && e.T == top.Deadline; });
        PBT_CHECK(it != m.end(), log.str() << ": unknown entry " << top.Data);
        for (auto& e: m)
            PBT_CHECK(e.T >= top.Deadline, log.str() << ": order of the rest");
        m.erase(it);
        q.Pop();
        ++taken;
    }
    PBT_CHECK(q.IsEmpty(), log.str() << ": extra entries");
    evaluations(n);
    labelIf(ties, "ties");
    labelIf(middle, "removal of an entry");
    if (taken >= 3 && (ties || middle))
        nontrivial();
    if (wantSample())
        sample(log.str());
}
