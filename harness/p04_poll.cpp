// P04: the poll loop asks every register again and again: as often as configured, in spite of the others.
//
// One case: a port with up to 4 devices (fast, slow, sometimes offline, with unsupported registers) and up to 20
// registers with all kinds of poll settings. The real serial client runs in virtual time; devices go off and on,
// answers get lost, the port can't be opened. At the end everything works and each register must be polled again.
#include "world.h"
using namespace pbt;
using std::chrono::milliseconds;

const char* PROPERTY_ID = "P04";
const char* NONTRIVIAL_RULE =
    "one case = a port with its devices and registers, polled for up to 300 cycles with devices going off and on. Non-trivial: at least two "
    "registers were polled three times or more, and a device or the port failed or registers differ in priority";

namespace
{
    const int64_t MS = 1000000;
    const int64_t EPS = MS; // the code takes some microseconds to run
    struct RegState
    {
        int64_t Last = -1; // start of the session of the last poll
        unsigned Count = 0;
        unsigned OpenCount = 0; // with the port open
        bool Unavailable = false;
    };
    struct DevState
    {
        std::set<unsigned> Written; // setup items written since the last disconnection
        bool SetupDone = false, SetupEver = false;
        bool FailedSinceSetup = false;
        bool Failed = false, Ok = false; // in this cycle
        bool LastReadOk = false;
        bool Lost = false; // disconnected in this cycle
        bool Flaps = false; // gets disconnected (by refusals) though nothing is lost
        unsigned ReadAddr = 0, ReadCount = 0, ReadFn = 0;
        int64_t LastOk = -1;   // end of the last cycle with a successful exchange
        int64_t LastLowEnd = -1; // end of the last session with low priority registers
        unsigned DisconnectedPolls = 0;
        int64_t LastAttempt = -1;
        bool Single = false; // registers of one priority
    };
}

void property(Gen& g)
{
    World w(g.pick({uint64_t(95486), uint64_t(1145833), uint64_t(10000)}));
    auto& oc = w.OpenClose;
    oc.MaxFailTime = milliseconds(g.pick({5000, 0, 500, -1, 20000}));
    oc.ConnectionMaxFailCycles = g.pick({2, 0, 1, 5, -1});
    oc.ReopenTimeout = milliseconds(g.pick({5000, 100, 1000}));
    size_t rateLimit = g.chance(1, 5) ? size_t(g.range(0, 100)) : std::numeric_limits<size_t>::max();
    size_t nDev = 1 + g.below(4);
    size_t maxRegs = g.chance(1, 3) ? 1 : 8;
    bool illegalUsed = g.chance(1, 2);
    double load = 0; // of high priority registers
    int64_t total = 0; // longest time to read everything once
    int64_t longest = 0, minPeriod = 1 << 20, highs = 0; // longest time to read a register, ms; shortest period
    for (size_t i = 0; i < nDev; ++i) {
        auto& d = w.AddDevice(unsigned(1 + i * 7 + g.below(6)), g.bits());
        auto& c = *d.Config;
        c.MaxRegHole = g.chance(1, 3) ? 5 : 0;
        c.MaxBitHole = c.MaxRegHole * 8;
        c.MaxReadRegisters = g.pick({1, 10, 125});
        c.FrameTimeout = milliseconds(g.range(0, 30));
        c.ResponseTimeout = milliseconds(g.range(10, 400));
        c.DeviceTimeout = milliseconds(g.pick({3000, 0, 200, 10000, -1}));
        c.DeviceMaxFailCycles = g.pick({2, 0, 1, 5, -1});
        c.RequestDelay = std::chrono::microseconds(g.chance(1, 4) ? g.range(0, 20000) : 0);
        c.MinRequestInterval = milliseconds(g.chance(1, 4) ? g.range(1, 2000) : 0);
        d.Slave.AnswerNs = int64_t(g.range(200000, uint64_t(c.ResponseTimeout.count()) * MS / 2));
        d.Online = !g.chance(1, 4);
        w.CreateDevice(d);
        if (g.chance(1, 2))
            for (size_t k = 0, n = 1 + g.below(3); k < n; ++k)
                w.AddSetup(d, 9000 + unsigned(k) * (1 + unsigned(i) % 2), uint16_t(g.bits(16)));
        int64_t one = c.RequestDelay.count() * 1000 + (c.FrameTimeout.count() + 25) * MS + int64_t(w.Base->ByteNs) * 24 + d.Slave.AnswerNs;
        unsigned addr = unsigned(g.below(100));
        for (size_t k = 0, n = 1 + g.below(maxRegs); k < n; ++k) {
            RegSpec s;
            s.Type = g.pick({Modbus::REG_HOLDING, Modbus::REG_INPUT, Modbus::REG_COIL});
            s.Addr = addr;
            addr += 2 + unsigned(g.chance(1, 3) ? g.range(0, 12) : 0);
            s.Format = s.IsBit() ? U8 : g.pick({U16, U32, S16});
            int64_t period = 0, limit = 0;
            if (g.chance(1, 3)) {
                period = int64_t(g.pick({g.range(1, 50), g.range(50, 1000), g.range(500, 8000)}));
                load += double(one) / double(period * MS);
                minPeriod = std::min(minPeriod, period);
                ++highs;
            } else if (g.chance(1, 4))
                limit = int64_t(g.range(1, 6000));
            total += one;
            longest = std::max(longest, one / MS + 1);
            w.AddRegister(int(i), s, period, limit);
            if (illegalUsed && !s.IsBit() && g.chance(1, 4))
                d.Slave.Illegal[s.Table()].insert(s.Addr + unsigned(g.below(s.Words())));
            g.note("device " + std::to_string(d.Slave.Id) + ": " + s.Str() + " read_period " + std::to_string(period) + " read_rate_limit " +
                   std::to_string(limit) + (d.Slave.Illegal[s.Table()].empty() ? "" : " (table with illegal addresses)"));
        }
        g.note("device " + std::to_string(d.Slave.Id) + ": timeout " + std::to_string(c.DeviceTimeout.count()) + " max fail cycles " +
               std::to_string(c.DeviceMaxFailCycles) + " response timeout " + std::to_string(c.ResponseTimeout.count()) + " min_request_interval " +
               std::to_string(c.MinRequestInterval.count()) + " setup items " + std::to_string(d.Setup.size()) + (d.Online ? "" : " offline"));
    }
    g.note("rate limit " + std::to_string(rateLimit) + ", connection timeout " + std::to_string(oc.MaxFailTime.count()) + " cycles " +
           std::to_string(oc.ConnectionMaxFailCycles) + " reopen " + std::to_string(oc.ReopenTimeout.count()) + " high priority load " + std::to_string(load));

    bool trace = getenv("P04_TRACE");
    std::vector<RegState> rs(w.Regs.size());
    std::vector<DevState> ds(nDev);
    for (size_t i = 0; i < nDev; ++i) {
        std::set<bool> pr;
        for (auto k: w.Devices[i]->Regs)
            pr.insert(w.Regs[k].High());
        ds[i].Single = pr.size() == 1;
    }
    auto indexOf = [&](WDevice& d) {
        for (size_t i = 0; i < nDev; ++i)
            if (w.Devices[i].get() == &d)
                return i;
        return nDev;
    };
    unsigned lossPct = 0;
    int64_t session = 0; // start of the current session
    bool portOpenAtStart = true;
    bool quiet = false; // no faults any more
    bool anyFault = false;
    std::vector<size_t> polled; // registers of this cycle
    std::vector<size_t> used;   // devices that got requests in this cycle
    unsigned lowPolled = 0;

    sim::onWait = [&](int64_t until) {
        session = std::max(until, sim::nowNs());
        return int64_t(-1);
    };
    for (auto& d: w.Devices) {
        auto* raw = d.get();
        raw->Slave.OnRequest = [&, raw](const ModbusRequest& q) {
            auto i = indexOf(*raw);
            auto& s = ds[i];
            if (std::find(used.begin(), used.end(), i) == used.end())
                used.push_back(i);
            PBT_CHECK(portOpenAtStart || w.Base->Opened, "a request is sent to a closed port");
            bool lost = !raw->Online || (lossPct && g.below(100) < lossPct);
            bool illegal = false;
            auto t = q.Fn == 1 ? ModbusSlave::COIL : q.Fn == 4 ? ModbusSlave::INPUT : ModbusSlave::HOLDING;
            for (unsigned a = q.Addr; a < q.Addr + q.Count; ++a)
                illegal |= raw->Slave.Illegal[t].count(a) != 0;
            if (lost) {
                s.Failed = true;
                s.FailedSinceSetup = true;
                anyFault = true;
            } else if (!illegal) {
                s.Ok = true;
            }
            if (q.IsWrite()) {
                PBT_CHECK(q.Addr >= 9000, "unexpected write " << q.Str());
                if (s.SetupDone) {
                    PBT_CHECK(s.FailedSinceSetup, "device " << raw->Slave.Id << ": setup is written again though nothing failed");
                    bool disabled = raw->Config->DeviceTimeout.count() < 0 || raw->Config->DeviceMaxFailCycles < 0;
                    PBT_CHECK(!disabled, "device " << raw->Slave.Id << ": setup is written again though disconnection is disabled");
                    PBT_FAIL("device " << raw->Slave.Id << ": setup is written again though the device was not disconnected");
                }
                if (!lost) {
                    for (unsigned a = q.Addr; a < q.Addr + q.Count; ++a)
                        s.Written.insert(a);
                    if (s.Written.size() >= raw->Setup.size()) {
                        s.SetupDone = s.SetupEver = true;
                        s.FailedSinceSetup = false;
                    }
                }
            } else {
                PBT_CHECK(raw->Setup.empty() || s.SetupDone, "device " << raw->Slave.Id << " is polled (" << q.Str() << ") before its setup is written");
                s.ReadFn = q.Fn;
                s.ReadAddr = q.Addr;
                s.ReadCount = q.Count;
                s.LastReadOk = !lost && !illegal;
                if (illegal && !lost)
                    s.Failed = true;
            }
            if (trace)
                g.note((std::ostringstream() << sim::nowNs() / 1000 << " us " << raw->Slave.Id << " " << q.Str() << (lost ? " lost" : illegal ? " illegal" : "")).str());
            return lost ? Fault::Timeout : Fault::None;
        };
    }
    w.OnState = [&](WDevice& d) {
        if (trace)
            g.note((std::ostringstream() << sim::nowNs() / 1000 << " us " << d.Slave.Id << " state " << int(d.Device->GetConnectionState())).str());
        auto& s = ds[indexOf(d)];
        if (d.Device->GetConnectionState() == TDeviceConnectionState::DISCONNECTED) {
            s.Written.clear();
            s.SetupDone = false;
            s.Lost = true;
            s.Flaps |= quiet;
            for (auto k: d.Regs) {
                if (rs[k].Unavailable)
                    rs[k] = RegState();
            }
        }
    };
    w.OnCallback = [&](WReg& r, bool error) {
        auto i = size_t(&r - w.Regs.data());
        if (trace)
            g.note((std::ostringstream() << sim::nowNs() / 1000 << " us " << w.Devices[r.Dev]->Slave.Id << " " << r.S.Str() << (error ? " error" : " ok") << " available "
                      << int(r.R->GetAvailable()) << " excluded " << r.R->IsExcludedFromPolling() << " open " << w.Base->Opened).str());
        auto& d = *w.Devices[r.Dev];
        auto& s = ds[r.Dev];
        auto what = "device " + std::to_string(d.Slave.Id) + " " + r.S.Str();
        auto& st = rs[i];
        if (st.Last >= 0 && !st.Unavailable) {
            int64_t min = r.High() ? r.PeriodMs : r.LimitMs;
            PBT_CHECK(session - st.Last >= min * MS - EPS,
                      what << " is polled again after " << double(session - st.Last) / MS << " ms, configured " << min << " ms");
        }
        PBT_CHECK(session > st.Last, what << " is polled twice at once");
        st.Last = session;
        ++st.Count;
        polled.push_back(i);
        if (!w.Base->Opened) {
            PBT_CHECK(error && r.R->GetErrorState().test(TRegister::ReadError), what << ": no error though the port is closed");
            return;
        }
        PBT_CHECK(!st.Unavailable, what << " is polled though the device refused it");
        ++st.OpenCount;
        PBT_EQ(r.R->GetErrorState().test(TRegister::ReadError), error, what << ": error is passed to the callback");
        unsigned fn = r.S.Type == Modbus::REG_COIL ? 1 : r.S.Type == Modbus::REG_INPUT ? 4 : 3;
        if (!error) {
            PBT_CHECK(s.LastReadOk && s.ReadFn == fn && s.ReadAddr <= r.S.Addr && r.S.Addr + r.S.Words() <= s.ReadAddr + s.ReadCount,
                      what << ": success is reported, but the register was not read");
            PBT_CHECK(r.R->GetValue() == r.S.Expected(d.Slave), what << ": value is " << r.R->GetValue() << ", expected " << r.S.Expected(d.Slave));
        } else {
            PBT_CHECK(s.Failed, what << ": an error is reported, but no request failed");
        }
        if (r.R->GetAvailable() == TRegisterAvailability::UNAVAILABLE) {
            bool legal = true;
            for (unsigned a = 0; a < r.S.Words(); ++a)
                legal &= !d.Slave.Illegal[r.S.Table()].count(r.S.Addr + a);
            PBT_CHECK(!legal || r.S.IsBit(), what << " is marked as unavailable, but the device never refused it");
            st.Unavailable = !s.Lost;
        }
    };
    sim::setTickNs(10000);
    w.Start(rateLimit);

    int64_t lastOpenFail = -1;
    int64_t lastSuccess = 0;        // end of the last cycle with a successful exchange over the port
    int64_t lastAlive = 0;          // end of the last cycle with a device that is not disconnected
    unsigned failedCycles = 0;      // polling cycles without a successful exchange since then
    unsigned disconnectedCycles = 0;
    int opens = 0, closes = 0, idle = 0;
    int64_t lowWindowStart = 0;
    auto cycle = [&]() {
        for (auto& s: ds)
            s.Failed = s.Ok = s.LastReadOk = s.Lost = false;
        polled.clear();
        used.clear();
        portOpenAtStart = w.Base->Opened;
        bool fails = w.Base->OpenFails;
        int64_t start = sim::nowNs();
        std::vector<TDeviceConnectionState> before;
        for (auto& d: w.Devices)
            before.push_back(d->Device->GetConnectionState());
        opens = w.Base->OpenCount;
        closes = w.Base->CloseCount;
        int tries = w.Base->OpenTries;
        w.Client->Cycle();
        idle = polled.empty() && sim::nowNs() - start < MS ? idle + 1 : 0;
        PBT_CHECK(idle < 300, "the loop is busy doing nothing");
        PBT_CHECK(session - start <= (w.Base->Opened ? 100 : 500) * MS + EPS || w.Base->CloseCount > closes, "the port is idle for " << (session - start) / MS << " ms");
        if (w.Base->OpenTries > tries) {
            if (lastOpenFail >= 0)
                PBT_CHECK(start - lastOpenFail >= oc.ReopenTimeout.count() * MS - EPS, "the port is opened again " << (start - lastOpenFail) / MS << " ms after a failure");
            lastOpenFail = fails ? start : -1;
            if (!fails) {
                lastSuccess = lastAlive = start;
                failedCycles = disconnectedCycles = 0;
                for (auto& s: ds)
                    s.LastAttempt = -1;
            }
        } else if (!portOpenAtStart) {
            PBT_CHECK(lastOpenFail >= 0 && start - lastOpenFail < oc.ReopenTimeout.count() * MS + EPS, "the port is not opened in time");
        }
        bool open = w.Base->Opened || w.Base->CloseCount > closes;
        if (open && !polled.empty()) {
            auto dev = size_t(w.Regs[polled[0]].Dev);
            for (auto k: polled)
                PBT_CHECK(size_t(w.Regs[k].Dev) == dev && w.Regs[k].High() == w.Regs[polled[0]].High(), "registers of different devices or priorities in one session");
            auto& s = ds[dev];
            auto& d = *w.Devices[dev];
            bool high = w.Regs[polled[0]].High();
            bool disconnected = d.Device->GetConnectionState() == TDeviceConnectionState::DISCONNECTED;
            // pause between the sessions
            if (!high && s.LastLowEnd >= 0 && s.LastAttempt >= 0)
                PBT_CHECK(session - s.LastLowEnd >= d.Config->MinRequestInterval.count() * MS - EPS,
                          "device " << d.Slave.Id << " is asked " << double(session - s.LastLowEnd) / MS << " ms after its answer, min_request_interval "
                                    << d.Config->MinRequestInterval.count());
            // attempts to reach a disconnected device get rarer
            if (s.Single) {
                if (before[dev] == TDeviceConnectionState::DISCONNECTED) {
                    ++s.DisconnectedPolls;
                    int64_t pause = std::min<int64_t>(500 * (int64_t(s.DisconnectedPolls) - 2), 10000);
                    if (s.DisconnectedPolls >= 2 && s.LastAttempt >= 0)
                        PBT_CHECK(session - s.LastAttempt >= pause * MS - EPS, "disconnected device " << d.Slave.Id << " is asked again after "
                                                                                             << (session - s.LastAttempt) / MS << " ms, the pause is " << pause << " ms");
                    label("poll of a disconnected device");
                }
                if (before[dev] != TDeviceConnectionState::DISCONNECTED || s.Lost)
                    s.DisconnectedPolls = 0;
            }
            if (!high)
                s.LastLowEnd = sim::nowNs();
            s.LastAttempt = session;
            if (s.Ok)
                s.LastOk = sim::nowNs();
            // closing of the port; an exchange doesn't count if the device got disconnected after it in the same cycle
            if (s.Ok && !disconnected) {
                lastSuccess = sim::nowNs();
                failedCycles = 0;
            } else
                ++failedCycles;
            if (disconnected)
                ++disconnectedCycles;
            else {
                disconnectedCycles = 0;
                lastAlive = sim::nowNs();
            }
            bool closed = w.Base->CloseCount > closes;
            if (closed) {
                label("port closed");
                PBT_CHECK(oc.MaxFailTime.count() >= 0 && oc.ConnectionMaxFailCycles >= 0, "the port is closed though reconnection is disabled");
                PBT_CHECK(!s.Ok || disconnected, "the port is closed after a successful exchange");
                PBT_CHECK(sim::nowNs() - lastSuccess >= oc.MaxFailTime.count() * MS - EPS, "the port is closed " << (sim::nowNs() - lastSuccess) / MS << " ms after a successful exchange");
                PBT_CHECK(int64_t(failedCycles) >= oc.ConnectionMaxFailCycles, "the port is closed after " << failedCycles << " failed cycles");
            } else if (oc.MaxFailTime.count() >= 0 && oc.ConnectionMaxFailCycles >= 0) {
                PBT_CHECK(int64_t(disconnectedCycles) <= oc.ConnectionMaxFailCycles + 1 || sim::nowNs() - lastAlive <= oc.MaxFailTime.count() * MS + EPS,
                          "the port is not closed after " << disconnectedCycles << " failed cycles");
            }
            if (closed)
                failedCycles = disconnectedCycles = 0;
        } else {
            PBT_CHECK(w.Base->CloseCount == closes, "the port is closed though no device was polled");
        }
        // rate of low priority registers
        for (auto k: polled) {
            if (w.Regs[k].High() || !open)
                continue;
            if (session - lowWindowStart > 1000 * MS) {
                lowWindowStart = session / (1000 * MS) * (1000 * MS);
                lowPolled = 0;
            }
            ++lowPolled;
            if (rateLimit > 0 && rateLimit < 1000)
                PBT_CHECK(lowPolled <= rateLimit + 125, lowPolled << " low priority registers are polled in a second, the limit is " << rateLimit);
        }
        for (auto k: polled)
            if (w.Regs[k].R->GetAvailable() == TRegisterAvailability::UNAVAILABLE) {
                rs[k].Unavailable = !ds[w.Regs[k].Dev].Lost;
                if (!rs[k].Unavailable)
                    rs[k].Last = -1; // asked again at once
            }
    };

    size_t steps = g.size(1, 60);
    for (size_t step = 0; step < steps; ++step) {
        switch (g.weighted({10, 3, 2, 2, 1, 1})) {
            case 0: {
                for (size_t k = 0, n = 1 + g.below(6); k < n; ++k)
                    cycle();
                break;
            }
            case 1: {
                auto& d = *w.Devices[g.below(nDev)];
                d.Online = !d.Online;
                break;
            }
            case 2: {
                auto& r = w.Regs[g.below(w.Regs.size())];
                w.Devices[r.Dev]->Slave.Set(r.S.Table(), r.S.Addr, r.S.IsBit() ? uint16_t(g.below(2)) : uint16_t(g.bits(16)));
                break;
            }
            case 3:
                sim::advance(milliseconds(g.range(1, 20000)));
                break;
            case 4:
                lossPct = lossPct ? 0 : unsigned(g.range(5, 60));
                break;
            default:
                w.Base->OpenFails = !w.Base->OpenFails;
        }
    }
    // --- everything works: each register is polled again
    quiet = true;
    for (auto& d: w.Devices)
        d->Online = true;
    lossPct = 0;
    w.Base->OpenFails = false;
    // A low priority register that does not fit between polls of high priority registers waits for its share
    bool lowCanWait = highs && longest * 2 > minPeriod / (highs + 1) - longest;
    auto pollable = [&](size_t i) {
        auto& r = w.Regs[i];
        if ((lowCanWait || ds[r.Dev].Flaps) && !r.High())
            return false;
        return !rs[i].Unavailable && r.R->GetAvailable() != TRegisterAvailability::UNAVAILABLE;
    };
    for (int round = 0; round < 2; ++round) {
        std::vector<unsigned> c0;
        for (auto& s: rs)
            c0.push_back(s.OpenCount);
        int64_t t0 = sim::nowNs();
        // the longest period, the longest pause, and the time to read all in the worst order
        int64_t bound = (8000 + 6000 + 2000 + 12000 + 5000 + int64_t(w.Regs.size()) * 2500) * MS + 4 * total;
        if (rateLimit > 0 && rateLimit < 1000)
            bound += int64_t(w.Regs.size()) * 2000 * MS;
        size_t left = 1;
        while (left) {
            cycle();
            left = 0;
            for (size_t i = 0; i < w.Regs.size(); ++i)
                if (pollable(i) && rs[i].OpenCount == c0[i])
                    ++left;
            if (sim::nowNs() - t0 > bound) {
                for (size_t i = 0; i < w.Regs.size(); ++i)
                    if (pollable(i) && rs[i].OpenCount == c0[i])
                        PBT_FAIL("device " << w.Devices[w.Regs[i].Dev]->Slave.Id << " " << w.Regs[i].S.Str() << " is not polled for " << bound / MS / 1000
                                           << " s though everything works");
            }
        }
    }
    for (size_t i = 0; i < w.Regs.size(); ++i) {
        auto& r = w.Regs[i];
        auto& d = *w.Devices[r.Dev];
        if (!pollable(i) || !d.Slave.Illegal[r.S.Table()].empty())
            continue;
        PBT_CHECK(!r.R->GetErrorState().test(TRegister::ReadError), r.S.Str() << " has an error though everything works");
    }
    // --- high priority registers are polled in time if there are not too many of them
    if (load < 0.3) {
        for (int k = 0; k < 40; ++k)
            cycle();
        std::vector<int64_t> last;
        for (auto& s: rs)
            last.push_back(s.Last);
        for (int k = 0; k < 60; ++k) {
            cycle();
            for (size_t i = 0; i < w.Regs.size(); ++i)
                if (w.Regs[i].High() && pollable(i) && rs[i].Last >= 0) {
                    PBT_CHECK(session - rs[i].Last <= w.Regs[i].PeriodMs * MS + 2 * total + 1000 * MS,
                              "device " << w.Devices[w.Regs[i].Dev]->Slave.Id << " " << w.Regs[i].S.Str() << " with read_period_ms " << w.Regs[i].PeriodMs
                                        << " is not polled for " << double(session - rs[i].Last) / MS << " ms");
                }
        }
        label("light load");
    }
    bool high = false, low = false;
    unsigned often = 0;
    for (size_t i = 0; i < w.Regs.size(); ++i) {
        (w.Regs[i].High() ? high : low) = true;
        often += rs[i].Count >= 3;
    }
    labelIf(high && low, "both priorities");
    labelIf(anyFault, "device failed");
    labelIf(illegalUsed, "unsupported registers");
    if (often >= 2 && (anyFault || (high && low) || w.Base->CloseCount))
        nontrivial();
    if (wantSample())
        sample(std::to_string(nDev) + " devices, " + std::to_string(w.Regs.size()) + " registers, " + std::to_string(steps) + " steps");
}
