// D01: values read over Modbus are those in the device, whatever the layout, the limits and the faults.
//
// One case: a device with up to 14 registers of one or two types, limits for holes and sizes, and a slave with random
// memory, some of it illegal. Several polls run over it, with faults and changing memory. Requests are checked on the
// wire against the limits; values, availability and errors against the memory.
#include "modbus_dev.h"
using namespace pbt;
using std::chrono::milliseconds;

const char* PROPERTY_ID = "D01";
const char* NONTRIVIAL_RULE =
    "one case = a layout of up to 14 registers polled up to 8 times. Non-trivial: at least one request returned two or more registers";

namespace
{
    struct Reg
    {
        RegSpec S;
        PRegister R;
        TRegisterAvailability Avail = TRegisterAvailability::UNKNOWN;
        bool Error = false;
        bool HasValue = false;
        TRegisterValue Value;
    };
    bool Legal(const ModbusSlave& s, const RegSpec& r)
    {
        for (unsigned i = 0; i < r.Words(); ++i)
            if (s.Illegal[r.Table()].count(r.Addr + i))
                return false;
        return true;
    }
}

void property(Gen& g)
{
    sim::resetClock();
    auto port = std::make_shared<SimPort>("sim", g.pick({uint64_t(0), uint64_t(1146000), uint64_t(100000)}));
    port->Open();
    ModbusSlave slave;
    slave.Tcp = g.chance(1, 4);
    slave.Id = 1 + unsigned(g.below(247));
    slave.Seed = g.bits();
    slave.Attach(*port);

    auto dc = std::make_shared<TDeviceConfig>("dev", std::to_string(slave.Id), "modbus");
    TModbusDeviceConfig mc;
    mc.CommonConfig = dc;
    bool holes = g.chance(2, 3);
    dc->MaxRegHole = holes ? int(g.range(0, 40)) : 0;
    dc->MaxBitHole = holes ? int(g.range(0, 200)) : 0;
    dc->MaxReadRegisters = g.pick({1, 2, 3, 5, 10, 60, 124, 125, 126, 2000, 0});
    dc->MinReadRegisters = g.chance(1, 5) ? g.uniform(2, 12) : 1;
    if (dc->MaxReadRegisters && size_t(dc->MaxReadRegisters) < dc->MinReadRegisters)
        dc->MinReadRegisters = 1;
    dc->FrameTimeout = milliseconds(g.range(0, 50));
    dc->ResponseTimeout = milliseconds(g.range(20, 600));
    dc->RequestDelay = std::chrono::microseconds(g.chance(1, 3) ? g.range(0, 20000) : 0);
    dc->ContinuePollingOnIllegalModbusException = g.chance(1, 6);
    mc.EnableWbContinuousRead = g.chance(1, 5);
    std::unique_ptr<Modbus::IModbusTraits> traits;
    if (slave.Tcp)
        traits = std::make_unique<Modbus::TModbusTCPTraits>();
    else
        traits = std::make_unique<Modbus::TModbusRTUTraits>(g.chance(1, 5));
    static SimProtocol protocol;
    auto dev = std::make_shared<TModbusDevice>(std::move(traits), mc, &protocol);

    // --- layout
    std::vector<Reg> regs;
    size_t n = 1 + g.size(0, 13);
    int type = g.pick({Modbus::REG_HOLDING, Modbus::REG_INPUT, Modbus::REG_COIL, Modbus::REG_DISCRETE, Modbus::REG_HOLDING_MULTI, Modbus::REG_HOLDING_SINGLE});
    bool byteLittle = g.chance(1, 4);
    unsigned addr = unsigned(g.pick({uint64_t(0), uint64_t(1000), uint64_t(65300), g.below(65000)}));
    for (size_t i = 0; i < n; ++i) {
        if (i && g.chance(1, 12))
            type = g.pick({Modbus::REG_HOLDING, Modbus::REG_INPUT, Modbus::REG_COIL});
        Reg r;
        r.S.Type = type;
        bool bit = r.S.IsBit();
        switch (g.weighted({10, 3, 2, 1})) {
            case 0:
                break;
            case 1:
                addr += unsigned(g.range(1, 4));
                break;
            case 2:
                addr += unsigned(bit ? g.range(1, 130) : g.range(1, 45));
                break;
            default:
                addr -= std::min(addr, unsigned(g.below(3))); // overlaps
        }
        r.S.Addr = addr;
        if (bit) {
            r.S.Format = U8;
        } else {
            if (g.chance(1, 8)) {
                r.S.Format = g.flip() ? RegisterFormat::String : RegisterFormat::String8;
                r.S.Width = unsigned(g.uniform(1, 12));
            } else {
                r.S.Format = g.chance(1, 2) ? U16 : GenNumberFormat(g);
                GenBits(g, r.S);
            }
            r.S.WordLittle = g.chance(1, 4);
            r.S.ByteLittle = byteLittle;
        }
        if (r.S.Addr + r.S.Words() > 65500 - dc->MinReadRegisters)
            break;
        addr = r.S.Addr + r.S.Words();
        // sorted by address, as the poller offers them
        if (!regs.empty() && regs.back().S.Type == r.S.Type && regs.back().S.Addr > r.S.Addr)
            r.S.Addr = regs.back().S.Addr;
        r.R = dev->AddRegister(r.S.Config());
        regs.push_back(r);
        if (g.chance(1, 10))
            slave.Illegal[r.S.Table()].insert(r.S.Addr + unsigned(g.below(r.S.Words())));
        if (g.chance(1, 6))
            slave.Illegal[r.S.Table()].insert(addr); // next one, often a hole
        // text in the strings, not only noise
        if (r.S.IsString() && g.chance(2, 3)) {
            std::vector<uint16_t> w;
            size_t len = g.below(r.S.Width * 2 + 1);
            for (unsigned k = 0; k < r.S.Width; ++k) {
                auto ch = [&](size_t at) { return at < len ? unsigned(g.uniform(1, 254)) : g.pick({0u, 0u, 0xffu}); };
                w.push_back(r.S.Format == RegisterFormat::String8 ? ch(2 * k) << 8 | ch(2 * k + 1) : ch(k));
            }
            r.S.Store(slave, w, r.S.Addr);
        }
    }
    if (regs.empty())
        return;
    for (auto& r: regs)
        g.note(r.S.Str());
    g.note("MaxRegHole " + std::to_string(dc->MaxRegHole) + " MaxBitHole " + std::to_string(dc->MaxBitHole) + " MaxRead " +
           std::to_string(dc->MaxReadRegisters) + " MinRead " + std::to_string(dc->MinReadRegisters) +
           (mc.EnableWbContinuousRead ? " continuous" : "") + (slave.Tcp ? " tcp" : " rtu"));

    bool continuous = false;
    if (mc.EnableWbContinuousRead) {
        bool supported = g.chance(3, 4);
        if (!supported)
            slave.WriteIllegal[ModbusSlave::HOLDING].insert(114);
        dev->Prepare(*port, TDevicePrepareMode::WITHOUT_SETUP);
        PBT_CHECK(slave.Log.size() == 1 && slave.Log[0].Fn == 6 && slave.Log[0].Addr == 114, "continuous read is not requested");
        PBT_EQ(dev->GetContinuousReadEnabled(), supported, "continuous read");
        continuous = supported;
        slave.Log.clear();
        slave.Cells[0].erase(114);
        // WB devices answer 0xFFFE for absent registers instead of refusing
        if (continuous && g.chance(3, 4))
            for (auto& t: slave.Illegal)
                t.clear();
    }

    int maxRegHole = dc->MaxRegHole, maxBitHole = dc->MaxBitHole;
    if (continuous) {
        maxRegHole = std::max(maxRegHole, 10);
        maxBitHole = std::max(maxBitHole, 80);
        PBT_CHECK(dc->MaxRegHole == maxRegHole && dc->MaxBitHole == maxBitHole, "holes of continuous read");
    }
    bool supportsHoles = true;
    size_t polls = 1 + g.below(8);
    bool grouped = false, faulted = false;
    for (size_t poll = 0; poll < polls; ++poll) {
        // the device's own changes
        for (auto& r: regs)
            if (poll && g.chance(1, 3))
                for (unsigned i = 0; i < r.S.Words(); ++i)
                    slave.Set(r.S.Table(), r.S.Addr + i, r.S.IsBit() ? uint16_t(g.below(2)) : uint16_t(g.bits(16)));
        size_t next = 0;
        while (next < regs.size()) {
            auto range = dev->CreateRegisterRange();
            std::vector<Reg*> in;
            auto limit = g.chance(1, 4) ? milliseconds(g.range(1, 300)) : milliseconds::max();
            bool skippedUnavailable = false;
            while (next < regs.size()) {
                auto& r = regs[next];
                if (range->Add(*port, r.R, limit)) {
                    if (r.Avail == TRegisterAvailability::UNAVAILABLE)
                        skippedUnavailable = true;
                    else
                        in.push_back(&r);
                    ++next;
                    continue;
                }
                PBT_CHECK(r.Avail != TRegisterAvailability::UNAVAILABLE, r.S.Str() << ": an unavailable register stops the range");
                if (in.empty()) {
                    PBT_CHECK(limit != milliseconds::max(), r.S.Str() << " is never accepted");
                    limit = milliseconds::max();
                    continue;
                }
                break;
            }
            if (in.empty()) {
                PBT_CHECK(skippedUnavailable, "empty range");
                PBT_CHECK(range->RegisterList().empty(), "a register known to be unavailable is going to be polled");
                break;
            }
            PBT_EQ(range->RegisterList().size(), in.size(), "registers in the range");
            size_t at = 0;
            for (auto& r: range->RegisterList())
                PBT_CHECK(r == in[at++]->R, "registers in the range come in another order");

            // --- what the range may contain
            bool bit = in[0]->S.IsBit();
            unsigned end = in[0]->S.Addr, start = in[0]->S.Addr;
            bool hasHoles = false;
            int maxHole = supportsHoles ? (bit ? maxBitHole : maxRegHole) : 0;
            for (size_t i = 0; i < in.size(); ++i) {
                auto& s = in[i]->S;
                PBT_CHECK(s.Type == in[0]->S.Type, "different types in one request");
                if (s.Addr > end) {
                    hasHoles = true;
                    PBT_CHECK(int(s.Addr - end) <= maxHole, s.Str() << ": hole of " << s.Addr - end << " with a limit of " << maxHole);
                }
                end = std::max(end, s.Addr + s.Words());
                if (!continuous) {
                    PBT_CHECK(in[i]->Avail != TRegisterAvailability::UNKNOWN || in[0]->Avail == TRegisterAvailability::UNKNOWN,
                              s.Str() << ": of unknown availability in a request with known ones");
                    if (in[0]->Avail == TRegisterAvailability::UNKNOWN) {
                        PBT_CHECK(bit || in.size() == 1, s.Str() << ": registers of unknown availability in one request");
                        PBT_CHECK(!hasHoles, s.Str() << ": holes between registers of unknown availability");
                        PBT_CHECK(in.size() <= size_t(std::max(16, dc->MaxReadRegisters)), "too many bits of unknown availability in one request");
                    }
                }
            }
            unsigned count = end - start;
            unsigned most = bit ? 2000 : 125;
            if (dc->MaxReadRegisters > 0)
                most = std::min(most, unsigned(dc->MaxReadRegisters));
            if (in.size() > 1)
                PBT_CHECK(count <= most || count == in[0]->S.Words(), "reads " << count << " of at most " << most);
            count = std::max(count, unsigned(dc->MinReadRegisters));
            if (limit != milliseconds::max()) {
                auto t = port->GetSendTimeBytes(8 + 5 + (bit ? (end - start + 7) / 8 : (end - start) * 2)) + dc->RequestDelay;
                // bits up to the end of the last 16 are free
                if (!bit)
                    PBT_CHECK(t <= limit || in.size() == 1 || count == in[0]->S.Words(), "the request takes longer than its limit");
            }

            // --- read
            Fault fault = g.chance(1, 8) ? g.pick({Fault::Timeout, Fault::LostAnswer, Fault::Exception, Fault::BadCrc, Fault::Short, Fault::WrongFunction, Fault::WrongSlave}) : Fault::None;
            slave.ExceptionCode = g.pick({4u, 1u, 2u, 3u, 5u, 6u, 8u, 10u, 11u, 0u, 77u, 255u});
            slave.ShortBy = unsigned(g.below(200));
            slave.OnRequest = [&](const ModbusRequest&) { return fault; };
            slave.Log.clear();
            bool brk = g.chance(1, 8), threw = false;
            auto connectionBefore = dev->GetConnectionState();
            auto t0 = sim::nowNs();
            try {
                dev->ReadRegisterRange(*port, range, brk);
            } catch (const TSerialDeviceException&) {
                threw = true;
            }
            PBT_EQ(slave.Log.size(), size_t(1), "requests for one range");
            auto& q = slave.Log[0];
            unsigned fn = bit ? (in[0]->S.Type == Modbus::REG_COIL ? 1 : 2) : (in[0]->S.Type == Modbus::REG_INPUT ? 4 : 3);
            PBT_CHECK(q.Fn == fn && q.Addr == start && q.Count == count,
                      "request is " << q.Str() << ", expected fn " << fn << " addr " << start << " count " << count);
            bool fail = fault != Fault::None || slave.LastException;
            if (fault == Fault::Short && !slave.LastException) {
                // an answer without the registers that are read only because of min_read_registers is enough
                size_t units = bit ? (count + 7) / 8 : count;
                size_t got = units - 1 - slave.ShortBy % units;
                fail = got < (bit ? (end - start + 7) / 8 : end - start);
            }
            PBT_EQ(threw, brk && fail, "the error is reported to the caller");
            bool permanent = slave.LastException >= 1 && slave.LastException <= 3 &&
                             (fault == Fault::None || fault == Fault::Exception || fault == Fault::Short);
            if (fail)
                faulted = true;
            else if (in.size() > 1)
                grouped = true;
            for (auto* r: in) {
                if (!fail) {
                    r->Value = r->S.Expected(slave);
                    r->HasValue = true;
                    r->Error = false;
                    r->Avail = TRegisterAvailability::AVAILABLE;
                } else {
                    r->Error = true;
                    if (permanent && !hasHoles && !dc->ContinuePollingOnIllegalModbusException)
                        r->Avail = TRegisterAvailability::UNAVAILABLE;
                }
            }
            if (permanent && hasHoles)
                supportsHoles = false;
            auto connection = dev->GetConnectionState();
            if (connection == TDeviceConnectionState::DISCONNECTED && connectionBefore != connection)
                supportsHoles = true; // a reconnected device gets another chance
            label(!fail ? "read" : permanent ? (hasHoles ? "refused with holes" : "refused") : "failed");
            for (auto& r: regs) {
                auto what = "poll " + std::to_string(poll) + ", request " + slave.Log[0].Str() + ", fault " + std::to_string(int(fault)) + ", exception " + std::to_string(slave.LastException) + ": " + r.S.Str();
                PBT_CHECK(r.R->GetAvailable() == r.Avail, what << ": availability is " << int(r.R->GetAvailable()) << ", expected " << int(r.Avail));
                PBT_CHECK(r.R->GetErrorState().test(TRegister::ReadError) == r.Error, what << (r.Error ? ": error is not reported" : ": false error"));
                if (r.HasValue)
                    PBT_CHECK(r.R->GetValue() == r.Value, what << ": value is " << r.R->GetValue() << ", expected " << r.Value);
            }
            PBT_EQ(dev->GetSupportsHoles(), supportsHoles, "reading with holes is allowed");
            // no answer may take longer than the timeouts allow
            if (fail && !slave.Tcp)
                PBT_CHECK(sim::nowNs() - t0 <= (dc->ResponseTimeout.count() + 3 * std::max<int64_t>(dc->FrameTimeout.count(), 5) + 50) * 1000000 + int64_t(dc->RequestDelay.count()) * 1000 + 300 * int64_t(port->ByteNs),
                          "the failed read took " << (sim::nowNs() - t0) / 1000000 << " ms");
        }
        sim::advance(milliseconds(20));
        while (!port->Rx.empty())
            port->Rx.pop_front();
    }
    // --- without further faults everything legal gets its value
    slave.OnRequest = nullptr;
    for (size_t poll = 0; poll < 4; ++poll) {
        for (size_t next = 0; next < regs.size();) {
            auto range = dev->CreateRegisterRange();
            size_t from = next;
            while (next < regs.size() && range->Add(*port, regs[next].R, milliseconds::max()))
                ++next;
            PBT_CHECK(next > from, "no progress");
            dev->ReadRegisterRange(*port, range);
        }
    }
    for (auto& r: regs) {
        if (r.R->GetAvailable() == TRegisterAvailability::UNAVAILABLE || r.Avail == TRegisterAvailability::UNAVAILABLE)
            continue;
        // neighbours of an illegal one may share its request (unchecked bits; layouts without a gap)
        if (!Legal(slave, r.S))
            continue;
        if (r.R->GetErrorState().test(TRegister::ReadError)) {
            PBT_CHECK(dc->ContinuePollingOnIllegalModbusException, r.S.Str() << " still fails without faults");
            continue;
        }
        PBT_CHECK(r.R->GetValue() == r.S.Expected(slave), r.S.Str() << ": value is " << r.R->GetValue() << ", expected " << r.S.Expected(slave));
    }
    if (grouped)
        nontrivial();
    labelIf(grouped, "grouped");
    labelIf(faulted, "with faults");
    if (wantSample())
        sample(regs[0].S.Str() + " +" + std::to_string(regs.size() - 1) + ", " + std::to_string(polls) + " polls");
}
