// D04: when a device is considered disconnected, how it is tried then and what happens when it returns.
#include "world.h"
using namespace pbt;
using std::chrono::milliseconds;

const char* PROPERTY_ID = "D04";
const char* NONTRIVIAL_RULE =
    "one case = 1..3 Modbus devices with 1..6 registers, setup items and all combinations of device_timeout_ms and device_max_fail_cycles, polled by the "
    "real client for up to 250 cycles (more when a device is lost for minutes) while devices are switched off, lose answers or damage them and the port is closed. Non-trivial: a device that was "
    "connected became disconnected, or stayed connected in spite of failed cycles";

namespace
{
    const int64_t MS = 1000000;
    const int64_t EPS = MS;
    struct St
    {
        // cycles of the device since the last one in which a register was read; since the last successful exchange
        int NoReadCycles = 0, NoOkCycles = 0;
        int64_t LastOk = -1, LastFail = -1;
        bool SetUp = false; // the setup is complete since the last disconnection
        std::set<unsigned> Written;
        // this cycle
        bool Asked = false, Ok = false, Read = false, Failed = false, WasDown = false, Polled = false, Down = false;
        // attempts to reach a disconnected device
        int DownAttempts = 0;
        int64_t LastAttempt = -1;
        bool Single = false;
    };
}

void property(Gen& g)
{
    World w(g.pick({uint64_t(95486), uint64_t(1145833)}));
    w.OpenClose.MaxFailTime = milliseconds(g.pick({5000, 500, -1}));
    w.OpenClose.ReopenTimeout = milliseconds(g.pick({1000, 100, 5000}));
    size_t nDev = 1 + g.below(3);
    std::vector<St> ds(nDev);
    int64_t maxPeriod = 0, oneRound = 0;
    for (size_t i = 0; i < nDev; ++i) {
        auto& d = w.AddDevice(unsigned(1 + i), g.bits());
        auto& c = *d.Config;
        c.MaxReadRegisters = g.pick({10, 1});
        c.ResponseTimeout = milliseconds(g.range(10, 300));
        c.FrameTimeout = milliseconds(g.range(0, 20));
        c.DeviceTimeout = milliseconds(g.pick({3000, 0, 200, 1000, 10000, -1}));
        c.DeviceMaxFailCycles = g.pick({2, 0, 1, 3, 5, 12, -1});
        d.Slave.AnswerNs = int64_t(g.range(200000, uint64_t(c.ResponseTimeout.count()) * MS / 2));
        d.Online = !g.chance(1, 5);
        w.CreateDevice(d);
        if (g.flip())
            for (size_t k = 0, n = 1 + g.below(4); k < n; ++k)
                w.AddSetup(d, 9000 + unsigned(k) * (1 + unsigned(g.below(2)) * 10), uint16_t(g.bits(16)));
        ds[i].Single = true;
        bool high = g.chance(1, 3), mixed = g.chance(1, 4);
        unsigned addr = unsigned(g.below(100));
        for (size_t k = 0, n = 1 + g.below(g.chance(1, 3) ? 1 : 6); k < n; ++k) {
            RegSpec s;
            s.Type = g.pick({Modbus::REG_HOLDING, Modbus::REG_INPUT});
            s.Addr = addr;
            addr += 2 + unsigned(g.below(3));
            s.Format = U16;
            bool h = mixed ? g.flip() : high;
            int64_t period = h ? int64_t(g.range(50, 8000)) : 0;
            maxPeriod = std::max(maxPeriod, period);
            w.AddRegister(int(i), s, period, 0);
            oneRound += (c.ResponseTimeout.count() + 60) * MS;
        }
        std::set<bool> pr;
        for (auto k: d.Regs)
            pr.insert(w.Regs[k].High());
        ds[i].Single = pr.size() == 1;
        oneRound += (c.ResponseTimeout.count() + 60) * MS * int64_t(d.Setup.size());
        g.note("device " + std::to_string(d.Slave.Id) + ": device_timeout_ms " + std::to_string(c.DeviceTimeout.count()) + " device_max_fail_cycles " +
               std::to_string(c.DeviceMaxFailCycles) + " response timeout " + std::to_string(c.ResponseTimeout.count()) + ", " + std::to_string(d.Regs.size()) +
               " registers, " + std::to_string(d.Setup.size()) + " setup items" + (d.Online ? "" : ", off"));
    }
    // a low priority register that does not fit between polls of high priority registers waits for its share (P02)
    bool lowCanWait = false;
    {
        int64_t minPeriod = INT64_MAX, highs = 0, lows = 0, longest = 0;
        for (auto& r: w.Regs) {
            (r.High() ? highs : lows) += 1;
            if (r.High())
                minPeriod = std::min(minPeriod, r.PeriodMs);
            longest = std::max(longest, w.Devices[r.Dev]->Config->ResponseTimeout.count() + 60);
        }
        lowCanWait = highs && lows && longest * 2 > minPeriod / (highs + 1) - longest;
    }
    bool notes = g.replaying();
    std::string trace;
    auto log = [&](const std::string& s) {
        auto l = std::to_string(sim::nowNs() / 1000) + " us " + s;
        trace += l + "\n";
        if (trace.size() > 12000)
            trace.erase(0, 6000);
        if (notes)
            g.note(l);
    };
    auto indexOf = [&](WDevice& d) {
        for (size_t i = 0; i < nDev; ++i)
            if (w.Devices[i].get() == &d)
                return i;
        return nDev;
    };
    unsigned lossPct = 0;
    int64_t session = 0;
    bool wasConnectedAndLost = false, survived = false;
    sim::onWait = [&](int64_t until) {
        session = std::max(until, sim::nowNs());
        return int64_t(-1);
    };
    for (auto& d: w.Devices) {
        auto* raw = d.get();
        raw->Slave.OnRequest = [&, raw](const ModbusRequest& q) {
            auto& s = ds[indexOf(*raw)];
            auto id = "device " + std::to_string(raw->Slave.Id);
            Fault f = Fault::None;
            if (!raw->Online)
                f = Fault::Timeout;
            else if (lossPct && g.below(100) < lossPct)
                f = g.pick({Fault::Timeout, Fault::LostAnswer, Fault::BadCrc});
            bool lost = f != Fault::None;
            log(id + " " + q.Str() + (lost ? " no answer" : ""));
            PBT_CHECK(!(s.WasDown && s.Failed), id << " is disconnected and the first attempt of the cycle failed, but it is asked again: " << q.Str() << "\n" << trace);
            if (s.WasDown && !s.Asked) {
                ++s.DownAttempts;
                if (s.Single && s.LastAttempt >= 0) {
                    auto pause = std::min<int64_t>(500 * (int64_t(s.DownAttempts) - 2), 10000) * MS;
                    PBT_CHECK(session - s.LastAttempt >= pause - EPS, "disconnected " << id << " is asked again after " << (session - s.LastAttempt) / MS << " ms, the pause is "
                                                                            << pause / MS << " ms\n" << trace);
                    PBT_CHECK(session - s.LastAttempt <= (10000 + maxPeriod + 1000) * MS + 3 * oneRound || lowCanWait || w.Base->OpenTries != w.Base->OpenCount,
                              "disconnected " << id << " is asked only after " << (session - s.LastAttempt) / MS << " ms\n" << trace);
                }
                s.LastAttempt = session;
            }
            s.Asked = true;
            if (q.IsWrite()) {
                PBT_CHECK(!s.SetUp || raw->Setup.empty(), id << ": setup is written again though the device was not disconnected\n" << trace);
                if (!lost)
                    for (unsigned a = q.Addr; a < q.Addr + q.Count; ++a)
                        s.Written.insert(a);
                if (s.Written.size() >= raw->Setup.size())
                    s.SetUp = true;
            } else {
                PBT_CHECK(s.SetUp || raw->Setup.empty(), id << " is polled before its setup is written\n" << trace);
                for (auto& i: raw->Setup)
                    PBT_CHECK(raw->Slave.Get(ModbusSlave::HOLDING, i.Addr) == i.Value, id << " is polled, but setup item " << i.Addr << " is not written\n" << trace);
                s.Read |= !lost;
                s.SetUp |= !lost;
            }
            if (lost) {
                s.Failed = true;
                s.LastFail = sim::nowNs();
            } else {
                s.Ok = true;
                s.LastOk = sim::nowNs();
                s.Failed = false;
            }
            return f;
        };
    }
    w.OnState = [&](WDevice& d) {
        auto& s = ds[indexOf(d)];
        auto& c = *d.Config;
        auto st = d.Device->GetConnectionState();
        auto id = "device " + std::to_string(d.Slave.Id);
        log(id + (st == TDeviceConnectionState::DISCONNECTED ? " disconnected" : " connected"));
        if (st != TDeviceConnectionState::DISCONNECTED) {
            PBT_CHECK(s.Ok, id << " is considered connected without a successful exchange\n" << trace);
            return;
        }
        bool complete = s.SetUp;
        s.SetUp = false;
        s.Written.clear();
        s.Down = true;
        if (!complete)
            return; // the setup was interrupted or the device never answered
        wasConnectedAndLost = true;
        PBT_CHECK(c.DeviceTimeout.count() >= 0 && c.DeviceMaxFailCycles >= 0, id << " is disconnected though it is disabled\n" << trace);
        auto silent = sim::nowNs() - s.LastOk;
        PBT_CHECK(silent >= c.DeviceTimeout.count() * MS - EPS, id << " is disconnected " << silent / MS << " ms after a successful exchange, device_timeout_ms "
                                                                 << c.DeviceTimeout.count() << "\n" << trace);
        PBT_CHECK(s.NoReadCycles + 1 >= c.DeviceMaxFailCycles, id << " is disconnected in failed cycle " << s.NoReadCycles + 1 << ", device_max_fail_cycles "
                                                                  << c.DeviceMaxFailCycles << "\n" << trace);
    };
    w.OnCallback = [&](WReg& r, bool) { ds[r.Dev].Polled = true; };
    sim::setTickNs(1000);
    w.Start(std::numeric_limits<size_t>::max());

    auto cycle = [&] {
        for (size_t i = 0; i < nDev; ++i) {
            auto& s = ds[i];
            s.Asked = s.Ok = s.Read = s.Failed = s.Polled = s.Down = false;
            s.WasDown = w.Devices[i]->Device->GetConnectionState() == TDeviceConnectionState::DISCONNECTED;
        }
        w.Client->Cycle();
        for (size_t i = 0; i < nDev; ++i) {
            auto& s = ds[i];
            auto& d = *w.Devices[i];
            auto& c = *d.Config;
            auto id = "device " + std::to_string(d.Slave.Id);
            if (!s.Asked && !s.Polled)
                continue;
            bool down = d.Device->GetConnectionState() == TDeviceConnectionState::DISCONNECTED;
            s.NoReadCycles = s.Read ? 0 : s.NoReadCycles + 1;
            s.NoOkCycles = s.Ok ? 0 : s.NoOkCycles + 1;
            bool enabled = c.DeviceTimeout.count() >= 0 && c.DeviceMaxFailCycles >= 0;
            if (s.Ok && !s.Failed)
                PBT_CHECK(!down, id << " answers, but is considered disconnected\n" << trace);
            if (!s.Ok && enabled && s.NoOkCycles >= c.DeviceMaxFailCycles) {
                auto at = s.Asked ? s.LastFail : sim::nowNs() - EPS;
                if (s.LastOk < 0 || at - s.LastOk > (c.DeviceTimeout + c.ResponseTimeout).count() * MS + 50 * MS)
                    PBT_CHECK(down, id << " is not disconnected after " << s.NoOkCycles << " failed cycles and " << (at - s.LastOk) / MS << " ms of silence\n" << trace);
            }
            survived |= !s.Ok && !down;
            if (!down || s.Down) {
                s.DownAttempts = 0;
                s.LastAttempt = -1;
            }
        }
    };
    size_t steps = g.size(1, 50);
    for (size_t k = 0; k < steps; ++k) {
        switch (g.weighted({10, 4, 2, 2, 2})) {
            case 0:
                for (size_t j = 0, n = 1 + g.below(5); j < n; ++j)
                    cycle();
                break;
            case 1: {
                auto& d = *w.Devices[g.below(nDev)];
                d.Online = !d.Online;
                log("device " + std::to_string(d.Slave.Id) + (d.Online ? " is switched on" : " is switched off"));
                break;
            }
            case 2: {
                // switched off till it is noticed; loses everything that was written
                auto& d = *w.Devices[g.below(nDev)];
                d.Online = false;
                log("device " + std::to_string(d.Slave.Id) + " is switched off for long");
                for (int j = 0; j < 60 && d.Device->GetConnectionState() != TDeviceConnectionState::DISCONNECTED; ++j)
                    cycle();
                if (g.chance(1, 4)) // till the pauses stop growing
                    for (int j = 0; j < 300 && ds[indexOf(d)].DownAttempts < 26; ++j)
                        cycle();
                if (d.Device->GetConnectionState() == TDeviceConnectionState::DISCONNECTED) {
                    d.Slave.Cells[ModbusSlave::HOLDING].clear();
                    log("device " + std::to_string(d.Slave.Id) + " is reset");
                }
                d.Online = true;
                break;
            }
            case 3:
                lossPct = lossPct ? 0 : unsigned(g.range(5, 90));
                log("losses " + std::to_string(lossPct) + " %");
                break;
            case 4:
                w.Base->OpenFails = !w.Base->OpenFails;
                if (w.Base->OpenFails)
                    w.Base->Close();
                log(w.Base->OpenFails ? "the port is closed and can't be opened" : "the port can be opened");
                for (auto& s: ds)
                    s.LastAttempt = -1;
                break;
        }
    }
    // --- everything works
    for (auto& d: w.Devices)
        d->Online = true;
    lossPct = 0;
    w.Base->OpenFails = false;
    log("everything works");
    for (auto& s: ds)
        s.LastAttempt = -1;
    auto t0 = sim::nowNs();
    auto bound = (12000 + 6000 + maxPeriod) * MS + 4 * oneRound;
    size_t left = lowCanWait ? 0 : 1;
    while (left && sim::nowNs() - t0 < bound) {
        cycle();
        left = 0;
        for (size_t i = 0; i < nDev; ++i)
            left += w.Devices[i]->Device->GetConnectionState() != TDeviceConnectionState::CONNECTED || !ds[i].SetUp;
    }
    for (size_t i = 0; i < nDev && !lowCanWait; ++i)
        PBT_CHECK(w.Devices[i]->Device->GetConnectionState() == TDeviceConnectionState::CONNECTED && ds[i].SetUp,
                  "device " << w.Devices[i]->Slave.Id << " is not connected and set up " << bound / MS << " ms after everything works\n" << trace);
    labelIf(wasConnectedAndLost, "a connected device is lost");
    labelIf(lowCanWait, "low priority waits");
    labelIf(survived, "failed cycles without disconnection");
    if (wasConnectedAndLost || survived)
        nontrivial();
    if (wantSample())
        sample(trace);
}
