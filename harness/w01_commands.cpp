// W01: a value commanded to a register reaches the device, or fails visibly.
//
// One case: a port with up to 3 Modbus devices polled by the real serial client in virtual time. Commands arrive at any
// moment: between cycles, while the client waits, while a request is on the line. Devices go off and on, answers get
// lost, writes are refused, the port can't be opened.
#include "world.h"
#include <sstream>
using namespace pbt;
using std::chrono::milliseconds;

const char* PROPERTY_ID = "W01";
const char* NONTRIVIAL_RULE =
    "one case = a port with its devices and a history of commands and faults. Non-trivial: at least two commands were written to a device, and one "
    "was repeated, replaced while it was pending, refused, or given up";

namespace
{
    const int64_t MS = 1000000;
    const int64_t EPS = MS;
    struct Cmd
    {
        bool Pending = false;
        bool Maybe = false; // may be given up: the time is at the limit
        uint64_t Value = 0;
        int64_t SetAt = 0, FirstFail = -1;
        int64_t EarlyFail = -1; // the time can be counted from the failure of a write that began before the command
        bool Queued = false;  // before the end of the wait of this cycle
        bool Outcome = false; // in this cycle
        bool Error = false;   // expected WriteError
        bool ErrorKnown = true;
    };
}

void property(Gen& g)
{
    World w(g.pick({uint64_t(95486), uint64_t(1145833)}));
    auto& oc = w.OpenClose;
    oc.MaxFailTime = milliseconds(g.pick({5000, 0, 500, -1}));
    oc.ConnectionMaxFailCycles = g.pick({2, 0, 1, 5});
    oc.ReopenTimeout = milliseconds(g.pick({1000, 100, 5000}));
    size_t nDev = 1 + g.below(3);
    for (size_t i = 0; i < nDev; ++i) {
        auto& d = w.AddDevice(unsigned(1 + i * 7), g.bits());
        auto& c = *d.Config;
        c.FrameTimeout = milliseconds(g.range(0, 20));
        c.ResponseTimeout = milliseconds(g.range(10, 300));
        c.DeviceTimeout = milliseconds(g.pick({3000, 0, 200, 10000, -1}));
        c.DeviceMaxFailCycles = g.pick({2, 0, 1, 5, -1});
        c.RequestDelay = std::chrono::microseconds(g.chance(1, 4) ? g.range(0, 20000) : 0);
        c.MaxWriteFailTime = std::chrono::seconds(g.pick({600, 0, 1, 2, 5, 30}));
        d.Slave.AnswerNs = int64_t(g.range(200000, uint64_t(c.ResponseTimeout.count()) * MS / 2));
        d.Online = !g.chance(1, 4);
        w.CreateDevice(d);
        if (g.chance(1, 3))
            for (size_t k = 0, n = 1 + g.below(3); k < n; ++k)
                w.AddSetup(d, 9000 + unsigned(k) * 2, uint16_t(g.bits(16)));
        bool allWriteOnly = g.chance(1, 5);
        unsigned addr = unsigned(g.below(100));
        for (size_t k = 0, n = 1 + g.below(5); k < n; ++k) {
            RegSpec s;
            s.Type = g.pick({Modbus::REG_HOLDING, Modbus::REG_COIL, Modbus::REG_HOLDING_SINGLE, Modbus::REG_HOLDING_MULTI});
            s.Addr = addr;
            s.Format = s.IsBit() ? U8 : s.Type == Modbus::REG_HOLDING_SINGLE ? U16 : g.pick({U16, U32});
            if (!s.IsBit() && g.chance(1, 4))
                s.WriteAddr = int(5000 + addr);
            s.WriteOnly = allWriteOnly || g.chance(1, 5);
            addr += 2 + unsigned(g.chance(1, 3) ? g.range(0, 12) : 0);
            w.AddRegister(int(i), s, g.chance(1, 4) ? int64_t(g.range(50, 3000)) : 0, 0);
            if (g.chance(1, 6))
                d.Slave.WriteIllegal[s.Table()].insert(s.WAddr());
            g.note("device " + std::to_string(d.Slave.Id) + ": " + s.Str());
        }
        g.note("device " + std::to_string(d.Slave.Id) + ": timeout " + std::to_string(c.DeviceTimeout.count()) + " max fail cycles " +
               std::to_string(c.DeviceMaxFailCycles) + " max_write_fail_time_s " + std::to_string(c.MaxWriteFailTime.count()) + " setup items " +
               std::to_string(d.Setup.size()) + (d.Online ? "" : " offline"));
    }
    FILE* trace = getenv("W01_TRACE") ? fopen(getenv("W01_TRACE"), "w") : nullptr; // for debugging
    std::vector<Cmd> cmds(w.Regs.size());
    bool tasks = true; // tasks are performed now, not polling
    int inflight = -1;
    uint64_t inflightValue = 0;
    Fault inflightFault = Fault::None;
    unsigned inflightExc = 0;
    unsigned written = 0, interesting = 0;
    unsigned lossPct = 0, busyPct = 0, hookPct = unsigned(g.pick({0, 10, 40}));
    bool noHooks = false;
    int hooks = 0; // commands in this cycle
    auto now = [] { return sim::nowNs(); };
    auto reg = [&](size_t i) { return "device " + std::to_string(w.Devices[w.Regs[i].Dev]->Slave.Id) + " " + w.Regs[i].S.Str(); };
    auto log = [&](const std::string& s) {
        if (trace)
            fprintf(trace, "%lld us %s\n", (long long)(now() / 1000), s.c_str());
    };
    auto command = [&](size_t i, uint64_t v) {
        auto& r = w.Regs[i];
        auto& c = cmds[i];
        log("command " + reg(i) + " = " + std::to_string(v));
        labelIf(c.Pending, "command replaced");
        interesting += c.Pending;
        c.Pending = true;
        c.Maybe = false;
        c.Value = v;
        c.SetAt = now();
        c.FirstFail = c.EarlyFail = -1;
        c.Queued = tasks;
        c.Outcome = false;
        w.Client->SetTextValue(r.R, std::to_string(v));
    };
    auto genCommand = [&] {
        auto i = g.below(w.Regs.size());
        auto& s = w.Regs[i].S;
        if (g.chance(1, 12)) {
            bool refused = false;
            log("bad command");
            try {
                w.Client->SetTextValue(w.Regs[i].R, g.pick({std::string("abc"), std::string(""), std::string("1;2x")}));
            } catch (const std::exception&) {
                refused = true;
            }
            PBT_CHECK(refused, reg(i) << ": a text that is not a number is accepted");
            return false;
        }
        command(i, s.IsBit() ? g.below(2) : s.Format == U32 ? g.bits(32) : g.pick({g.bits(16), g.below(3)}));
        return true;
    };
    auto failed = [&](size_t i) { // an attempt failed, it may be repeated
        auto& c = cmds[i];
        if (!c.Pending && !c.Maybe)
            return;
        int64_t T = w.Devices[w.Regs[i].Dev]->Config->MaxWriteFailTime.count() * 1000 * MS;
        if (c.FirstFail < 0)
            c.FirstFail = now();
        label("write failed and may be repeated");
        ++interesting;
        if (now() - c.FirstFail >= T + (T ? EPS : 0)) {
            c.Pending = c.Maybe = false;
            label("command is given up");
        } else if (now() - (c.EarlyFail >= 0 ? c.EarlyFail : c.FirstFail) >= T - EPS)
            c.Maybe = true;
    };
    sim::onWait = [&](int64_t until) {
        if (!noHooks && hookPct && hooks < 5 && g.below(100) < hookPct) {
            ++hooks;
            int64_t t = now() + int64_t(g.below(uint64_t(std::max<int64_t>(until - now(), 1))));
            sim::advanceNs(t - now());
            tasks = true; // the command is in time for this cycle
            bool any = genCommand();
            if (g.chance(1, 4))
                any |= genCommand();
            tasks = any;
            return now();
        }
        tasks = false;
        return int64_t(-1);
    };
    for (auto& d: w.Devices) {
        auto* raw = d.get();
        raw->Slave.OnRequest = [&, raw](const ModbusRequest& q) {
            bool lost = !raw->Online || (lossPct && g.below(100) < lossPct);
            Fault f = lost ? Fault::Timeout : Fault::None;
            if (!lost && busyPct && g.below(100) < busyPct) {
                f = g.pick({Fault::Exception, Fault::LostAnswer, Fault::BadCrc});
                // a refused read excludes the register from polling
                raw->Slave.ExceptionCode = q.IsWrite() ? unsigned(g.pick({6, 2, 3, 4})) : unsigned(g.pick({6, 4}));
            }
            PBT_CHECK(w.Base->Opened, "a request is sent to a closed port");
            if (q.IsWrite() && q.Addr < 9000) {
                size_t i = w.Regs.size();
                for (size_t k = 0; k < w.Regs.size(); ++k) {
                    auto& s = w.Regs[k].S;
                    if (w.Devices[w.Regs[k].Dev].get() == raw && s.WAddr() == q.Addr && s.IsBit() == (q.Fn == 5 || q.Fn == 15) && s.Words() == q.Count)
                        i = k;
                }
                PBT_CHECK(i < w.Regs.size(), "a request that was not commanded: " << q.Str());
                auto& c = cmds[i];
                uint64_t v = 0;
                if (q.Fn == 5)
                    v = q.Data[0] ? 1 : 0;
                else
                    for (auto b: q.Data)
                        v = v << 8 | b;
                log("write " + reg(i) + " = " + std::to_string(v) + " fault " + std::to_string(int(f)) + " exception " + std::to_string(raw->Slave.ExceptionCode));
                PBT_CHECK(tasks, reg(i) << " is written during polling");
                PBT_CHECK(c.Pending || c.Maybe, reg(i) << ": a write that is done, given up or was never commanded is repeated: " << q.Str());
                PBT_CHECK(v == c.Value, reg(i) << ": " << v << " is written, the last commanded value is " << c.Value);
                inflight = int(i);
                inflightValue = v;
                inflightFault = f;
                c.Outcome = true;
                inflightExc = 0;
                if (f == Fault::Exception)
                    inflightExc = raw->Slave.ExceptionCode;
                else if (f != Fault::Timeout && raw->Slave.WriteIllegal[w.Regs[i].S.Table()].count(q.Addr))
                    inflightExc = 2;
            } else {
                log((q.IsWrite() ? "setup " : "read ") + std::to_string(raw->Slave.Id) + " " + q.Str() + (lost ? " lost" : ""));
                PBT_CHECK(q.IsWrite() || !tasks, "polling goes on while commands wait");
            }
            if (!noHooks && hookPct && hooks < 5 && g.below(100) < hookPct / 4) {
                ++hooks;
                label("command while a request is on the line");
                genCommand();
            }
            return f;
        };
    }
    w.OnState = [&](WDevice& d) { log("device " + std::to_string(d.Slave.Id) + " state " + std::to_string(int(d.Device->GetConnectionState()))); };
    w.OnCallback = [&](WReg& r, bool error) {
        auto i = size_t(&r - w.Regs.data());
        auto& c = cmds[i];
        bool we = r.R->GetErrorState().test(TRegister::WriteError);
        log("callback " + reg(i) + (error ? " error" : " ok") + (we ? " w" : "") + " value " + std::to_string(r.R->GetValue().GetType() == TRegisterValue::ValueType::Integer ? r.R->GetValue().Get<uint64_t>() : 0));
        if (inflight >= 0) {
            PBT_CHECK(size_t(inflight) == i, reg(size_t(inflight)) << " was written, but the result is reported for " << reg(i));
            inflight = -1;
            bool lost = inflightFault == Fault::Timeout || inflightFault == Fault::LostAnswer || inflightFault == Fault::BadCrc;
            if (!lost && inflightExc == 0) {
                PBT_CHECK(!error && !we, reg(i) << ": the write succeeded, but an error is reported");
                PBT_CHECK(r.R->GetValue() == TRegisterValue(inflightValue), reg(i) << ": " << inflightValue << " was written, but the value is " << r.R->GetValue());
                c.Error = false;
                ++written;
                label("written");
                if (c.Value == inflightValue)
                    c.Pending = c.Maybe = false;
            } else {
                PBT_CHECK(error && we, reg(i) << ": the write failed, but no error is reported");
                c.Error = true;
                bool refused = !lost && inflightExc <= 3;
                if (c.Value == inflightValue) {
                    if (refused) {
                        c.Pending = c.Maybe = false;
                        label("write refused");
                        ++interesting;
                    } else
                        failed(i);
                } else {
                    label("command replaced while it is written");
                    if (c.EarlyFail < 0)
                        c.EarlyFail = now();
                }
            }
            return;
        }
        if (tasks) { // no request: the device or port isn't available
            PBT_CHECK(c.Pending || c.Maybe, reg(i) << ": a callback without a command");
            PBT_CHECK(error && we, reg(i) << ": the write was not performed, but no error is reported");
            auto& d = *w.Devices[r.Dev];
            if (w.Base->Opened) {
                bool polled = false;
                for (auto k: d.Regs)
                    polled |= !w.Regs[k].S.WriteOnly;
                bool down = d.Device->GetConnectionState() == TDeviceConnectionState::DISCONNECTED && polled;
                // the setup could have failed just now
                PBT_CHECK(down || !d.Online || lossPct || busyPct, reg(i) << ": no attempt to write though the device is connected");
            }
            c.Error = true;
            c.Outcome = true;
            label("write is put off");
            failed(i);
            return;
        }
        PBT_CHECK(!r.S.WriteOnly, reg(i) << " is write-only but polled");
        PBT_EQ(we, c.Error, reg(i) << ": write error of a polled register");
        PBT_EQ(error, we || r.R->GetErrorState().test(TRegister::ReadError), reg(i) << ": error of a polled register");
    };
    sim::setTickNs(10000);
    w.Start(std::numeric_limits<size_t>::max());
    auto cycle = [&] {
        tasks = true;
        hooks = 0;
        for (auto& c: cmds) {
            c.Queued = c.Pending;
            c.Outcome = false;
        }
        w.Client->Cycle();
        PBT_CHECK(inflight < 0, reg(size_t(inflight)) << ": the result of a write is not reported");
        for (size_t i = 0; i < cmds.size(); ++i) {
            auto& c = cmds[i];
            if (c.Pending && !c.Maybe && c.Queued)
                PBT_CHECK(c.Outcome, reg(i) << ": the command " << c.Value << " of " << (now() - c.SetAt) / MS << " ms ago is forgotten");
        }
        for (auto& c: cmds)
            if (c.Maybe && c.Queued && !c.Outcome)
                c.Pending = c.Maybe = false;
        tasks = true;
    };
    size_t steps = g.size(1, 80);
    for (size_t step = 0; step < steps; ++step) {
        switch (g.weighted({10, 6, 3, 2, 1, 1, 1})) {
            case 0: {
                for (size_t k = 0, n = 1 + g.below(4); k < n; ++k)
                    cycle();
                break;
            }
            case 1:
                genCommand();
                break;
            case 2: {
                auto& d = *w.Devices[g.below(nDev)];
                d.Online = !d.Online;
                log("device " + std::to_string(d.Slave.Id) + (d.Online ? " online" : " offline"));
                break;
            }
            case 3:
                sim::advance(milliseconds(g.range(1, 20000)));
                break;
            case 4:
                lossPct = lossPct ? 0 : unsigned(g.range(5, 60));
                break;
            case 5:
                busyPct = busyPct ? 0 : unsigned(g.range(5, 60));
                break;
            default:
                w.Base->OpenFails = !w.Base->OpenFails;
        }
    }
    // --- everything works: nothing stays pending, and a new command is written
    for (auto& d: w.Devices)
        d->Online = true;
    lossPct = busyPct = 0;
    w.Base->OpenFails = false;
    noHooks = true;
    for (int k = 0; k < 30; ++k)
        cycle();
    sim::advance(milliseconds(11000)); // longer than the time to the next attempt to connect
    int64_t t1 = now();
    for (int k = 0; k < 30 || (now() - t1 < 4000 * MS && k < 4000); ++k)
        cycle();
    // frequent high priority polls may leave no time to connect to a device (see P04)
    bool highPriority = false;
    for (auto& r: w.Regs)
        highPriority |= r.PeriodMs != 0;
    auto mayBeDown = [&](size_t i) {
        return highPriority && w.Devices[w.Regs[i].Dev]->Device->GetConnectionState() == TDeviceConnectionState::DISCONNECTED;
    };
    for (size_t i = 0; i < cmds.size(); ++i)
        PBT_CHECK(!cmds[i].Pending || mayBeDown(i), reg(i) << ": the command " << cmds[i].Value << " of " << (now() - cmds[i].SetAt) / MS << " ms ago is still pending though everything works");
    for (size_t i = 0; i < cmds.size(); ++i) {
        auto& d = *w.Devices[w.Regs[i].Dev];
        auto& s = w.Regs[i].S;
        if (d.Slave.WriteIllegal[s.Table()].count(s.WAddr()) || (oc.MaxFailTime.count() >= 0 && !w.Base->Opened) || mayBeDown(i))
            continue;
        uint64_t v = s.IsBit() ? g.below(2) : g.bits(16);
        command(i, v);
        cycle();
        PBT_CHECK(!cmds[i].Pending && !cmds[i].Error, reg(i) << ": a command is not written though everything works");
    }
    if (written >= 2 && interesting)
        nontrivial();
    if (wantSample())
        sample(std::to_string(nDev) + " devices, " + std::to_string(w.Regs.size()) + " registers, " + std::to_string(steps) + " steps, " + std::to_string(written) + " writes");
}
