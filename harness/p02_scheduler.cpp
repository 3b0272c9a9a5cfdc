// P02: two-class poll scheduler against a reference model.
#include "poll_plan.h"
#include "pbt.h"
const char* PROPERTY_ID = "P02";
const char* NONTRIVIAL_RULE =
    "one case = a history of up to 50 operations (add, select, spend time, remove, time passing) on one scheduler. "
    "Non-trivial: both classes had due entries at the same time in some selection, or load balancing chose a "
    "low-priority entry over a due high-priority one";
using namespace pbt;
using namespace std::chrono;
using TP = steady_clock::time_point;

namespace
{
    struct E
    {
        int D;
        TP T;
    };
    struct Model
    {
        std::vector<E> Q[2]; // 0 high, 1 low
        milliseconds Balance{0}, Lag, Max;
        // deadline first; then the biggest value (entries are compared with std::less)
        int Top(int q) const
        {
            int b = -1;
            for (size_t i = 0; i < Q[q].size(); ++i)
                if (b < 0 || Q[q][i].T < Q[q][b].T || (Q[q][i].T == Q[q][b].T && Q[q][i].D > Q[q][b].D))
                    b = i;
            return b;
        }
        bool Ready(int q, TP t) const
        {
            int b = Top(q);
            return b >= 0 && Q[q][b].T <= t;
        }
        TP Deadline(int q) const
        {
            int b = Top(q);
            return b < 0 ? TP::max() : Q[q][b].T;
        }
    };
    struct Call
    {
        int D;
        bool Force;
        milliseconds Limit;
        bool Accept;
    };
}

void property(Gen& g)
{
    milliseconds lag(g.range(1, 50));
    TScheduler<int> s(lag);
    Model m;
    m.Lag = lag;
    m.Max = 2 * lag;
    TP now = TP() + seconds(10);
    std::ostringstream log;
    log << "lag " << lag.count() << "; ";
    size_t n = g.size(1, 50);
    int next = 1;
    bool both = false, forced = false, limited = false, rejected = false;
    for (size_t i = 0; i < n; ++i) {
        switch (g.weighted({5, 5, 3, 3, 1, 1})) {
            case 0: {
                int p = g.below(2);
                auto t = now + microseconds(int64_t(g.range(0, 40)) * 500 - 8000);
                s.AddEntry(next, t, p ? TPriority::Low : TPriority::High);
                m.Q[p].push_back({next, t});
                log << "add " << (p ? "low " : "high ") << next << " due in " << duration_cast<microseconds>(t - now).count() << " us; ";
                ++next;
                break;
            }
            case 1: {
                bool all = !g.chance(1, 5);
                std::vector<bool> accept;
                size_t k = g.range(1, 6);
                for (size_t j = 0; j < k; ++j)
                    accept.push_back(true);
                bool end = g.flip(); // what is answered after the plan is over
                log << "select " << (all ? "all" : "high only") << " accept " << k << (end ? "+" : "") << "; ";
                if (m.Ready(0, now) && m.Ready(1, now))
                    both = true;
                std::vector<Call> calls;
                auto acc = [&](int d, TItemAccumulationPolicy pol, milliseconds limit) {
                    PBT_CHECK(calls.empty() || calls.back().Accept, log.str() << ": entry " << d << " is offered after a refusal");
                    bool a = calls.size() < accept.size() ? accept[calls.size()] : end;
                    calls.push_back({d, pol == TItemAccumulationPolicy::Force, limit, a});
                    return a;
                };
                s.AccumulateNext(now, acc, all ? TItemSelectionPolicy::All : TItemSelectionPolicy::OnlyHighPriority);
                // expected
                bool force = all && (m.Balance >= m.Lag || m.Q[0].empty());
                int q = -1;
                milliseconds limit = milliseconds::max();
                bool firstForced = false;
                if (m.Ready(0, now) && (!force || !m.Ready(1, now))) {
                    q = 0;
                    firstForced = true;
                } else if (m.Ready(1, now)) {
                    q = 1;
                    firstForced = force;
                    if (!m.Q[0].empty()) {
                        auto d = ceil<milliseconds>(m.Deadline(0) - now);
                        limit = d.count() > 0 ? d : std::max(milliseconds(0), m.Balance - m.Lag);
                        limited = true;
                    }
                    if (force && m.Ready(0, now))
                        forced = true;
                }
                std::vector<Call> want;
                if (q >= 0) {
                    while (m.Ready(q, now)) {
                        int b = m.Top(q);
                        bool a = want.size() < accept.size() ? accept[want.size()] : end;
                        want.push_back({m.Q[q][b].D, want.empty() && firstForced, limit, a});
                        if (!a) {
                            rejected = true;
                            break;
                        }
                        m.Q[q].erase(m.Q[q].begin() + b);
                    }
                }
                PBT_EQ(calls.size(), want.size(), log.str() << ": number of offered entries");
                for (size_t j = 0; j < calls.size(); ++j) {
                    PBT_EQ(calls[j].D, want[j].D, log.str() << ": offered entry " << j);
                    PBT_EQ(calls[j].Force, want[j].Force, log.str() << ": entry " << calls[j].D << " must be taken unconditionally");
                    PBT_EQ(calls[j].Limit.count(), want[j].Limit.count(), log.str() << ": time limit for entry " << calls[j].D << ", ms");
                }
                break;
            }
            case 2: {
                milliseconds d(g.range(0, 3 * lag.count()));
                bool high = g.chance(2, 3);
                s.UpdateSelectionTime(d, high ? TPriority::High : TPriority::Low);
                m.Balance = high ? std::min(m.Balance + d, m.Max) : std::max(m.Balance - d, -m.Max);
                log << (high ? "high" : "low") << " took " << d.count() << " ms; ";
                break;
            }
            case 3: {
                now += microseconds(g.range(0, 30) * 500);
                log << "now " << duration_cast<microseconds>(now.time_since_epoch() - seconds(10)).count() << "; ";
                break;
            }
            case 4: {
                int d = g.below(next + 1);
                s.Remove(d);
                for (auto& q: m.Q)
                    q.erase(std::remove_if(q.begin(), q.end(), [&](auto& e) { return e.D == d; }), q.end());
                log << "remove " << d << "; ";
                break;
            }
            default:
                if (g.flip()) {
                    s.ResetLoadBalancing();
                    m.Balance = milliseconds(0);
                    log << "reset; ";
                }
        }
        PBT_EQ(s.GetTotalTime().count(), m.Balance.count(), log.str() << ": balance");
        PBT_CHECK(s.GetHighPriorityDeadline() == m.Deadline(0), log.str() << ": deadline of the high class");
        PBT_CHECK(s.GetLowPriorityDeadline() == m.Deadline(1), log.str() << ": deadline of the low class");
        PBT_CHECK(s.GetDeadline() == std::min(m.Deadline(0), m.Deadline(1)), log.str() << ": nearest deadline");
        PBT_EQ(s.IsEmpty(), m.Q[0].empty() && m.Q[1].empty(), log.str() << ": empty");
        if (next > 1) {
            int d = 1 + g.below(next);
            bool in = false;
            for (auto& q: m.Q)
                for (auto& e: q)
                    in = in || e.D == d;
            PBT_EQ(s.Contains(d), in, log.str() << ": entry " << d << " is present");
        }
    }
    g.note(log.str());
    evaluations(n);
    labelIf(both, "both classes due");
    labelIf(forced, "low priority chosen to balance the load");
    labelIf(limited, "low priority with a time limit");
    labelIf(rejected, "selection stopped by the caller");
    if (both || forced)
        nontrivial();
    if (wantSample())
        sample(log.str());
}
