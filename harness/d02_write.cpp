// D02: writing a value changes exactly the bits of the register, whatever shares its words, and is confirmed or reported.
//
// One case: a device (modbus or modbus_io with its address shift) with up to 6 registers, often bit fields of the same
// word, separate write addresses and write-only ones; reads, writes with faults at any request, changes by the device.
// The oracle is the memory of the slave: a written register takes the low bits of the value; other bits of the same
// word keep what the device last told or confirmed (nothing known: zero).
#include "devices/modbus_io_device.h"
#include "modbus_dev.h"
using namespace pbt;
using std::chrono::milliseconds;

const char* PROPERTY_ID = "D02";
const char* NONTRIVIAL_RULE = "one case = a history of reads, writes and changes. Non-trivial: at least one write was confirmed and checked in memory";

namespace
{
    struct Reg
    {
        RegSpec S;
        PRegister R;
    };
    std::string Show(const std::map<unsigned, uint16_t>& m)
    {
        std::string s;
        for (auto& i: m)
            s += " " + std::to_string(i.first) + "=" + std::to_string(i.second);
        return s;
    }
}

void property(Gen& g)
{
    sim::resetClock();
    auto port = std::make_shared<SimPort>("sim", 0);
    port->Open();
    ModbusSlave slave;
    slave.Tcp = g.chance(1, 4);
    slave.Id = 1 + unsigned(g.below(247));
    slave.Seed = g.bits();
    slave.Attach(*port);

    bool io = g.chance(1, 5);
    unsigned second = 1 + unsigned(g.below(8));
    auto dc = std::make_shared<TDeviceConfig>("dev", std::to_string(slave.Id) + (io ? ":" + std::to_string(second) : ""), "modbus");
    dc->ResponseTimeout = milliseconds(100);
    dc->MaxReadRegisters = 60;
    dc->RequestDelay = std::chrono::microseconds(g.chance(1, 3) ? g.range(0, 20000) : 0);
    unsigned shift = 0;
    if (io) {
        dc->Stride = g.pick({0, 200, 1000});
        dc->Shift = g.pick({0, 1, 300});
        // the documented formula
        shift = ((second - 1) % 4 + 1) * dc->Stride + dc->Shift;
    }
    TModbusDeviceConfig mc;
    mc.CommonConfig = dc;
    std::unique_ptr<Modbus::IModbusTraits> traits;
    if (slave.Tcp)
        traits = std::make_unique<Modbus::TModbusTCPTraits>();
    else
        traits = std::make_unique<Modbus::TModbusRTUTraits>();
    static SimProtocol protocol;
    std::shared_ptr<TSerialDevice> dev;
    if (io)
        dev = std::make_shared<TModbusIODevice>(std::move(traits), mc, &protocol);
    else
        dev = std::make_shared<TModbusDevice>(std::move(traits), mc, &protocol);

    // --- registers
    std::vector<Reg> regs;
    size_t n = 1 + g.size(0, 5);
    bool byteLittle = g.chance(1, 4);
    unsigned base = unsigned(g.pick({uint64_t(0), uint64_t(1000), g.below(60000)}));
    for (size_t i = 0; i < n; ++i) {
        Reg r;
        auto& s = r.S;
        s.Type = io ? g.pick({Modbus::REG_HOLDING, Modbus::REG_COIL})
                    : g.pick({Modbus::REG_HOLDING, Modbus::REG_HOLDING_SINGLE, Modbus::REG_HOLDING_MULTI, Modbus::REG_COIL});
        s.Addr = base + unsigned(g.below(4));
        if (s.IsBit()) {
            s.Format = U8;
        } else {
            s.ByteLittle = byteLittle;
            if (g.chance(1, 8)) {
                s.Format = g.flip() ? RegisterFormat::String : RegisterFormat::String8;
                s.Width = unsigned(g.uniform(1, 6));
            } else {
                s.Format = g.chance(1, 2) ? U16 : GenNumberFormat(g);
                GenBits(g, s);
                if (g.chance(1, 3) && s.Words() == 1) {
                    // a field of a shared word
                    s.Width = unsigned(g.uniform(1, 16));
                    s.Offset = unsigned(g.uniform(0, std::min(16 - s.Width, RegSpec::FormatBits(s.Format) - 1)));
                }
            }
            // documented as not supported for holding_single
            s.WordLittle = s.Type != Modbus::REG_HOLDING_SINGLE && g.chance(1, 4);
        }
        switch (g.weighted({6, 1, 1})) {
            case 0:
                break;
            case 1:
                s.WriteAddr = int(s.Addr + g.pick({100u, 0u, 7u}));
                break;
            default:
                s.WriteOnly = true;
        }
        auto cfg = s.Config();
        if (s.WriteOnly)
            cfg->AccessType = TRegisterConfig::EAccessType::WRITE_ONLY;
        r.R = dev->AddRegister(cfg);
        r.R->SetAvailable(TRegisterAvailability::AVAILABLE);
        g.note(s.Str());
        regs.push_back(r);
    }
    g.note((io ? "modbus_io, shift " + std::to_string(shift) : "modbus") + (slave.Tcp ? " tcp" : " rtu"));

    // what the device told or confirmed, by unshifted address
    ModbusSlave known;
    known.Seed = 0; // everything else is 0: see Known()
    auto knownWords = [&](const RegSpec& s) {
        ModbusSlave m;
        for (unsigned i = 0; i < s.Words(); ++i) {
            auto it = known.Cells[0].find(s.Addr + i);
            m.Cells[0][s.Addr + i] = it == known.Cells[0].end() || s.WriteOnly ? 0 : it->second;
        }
        return m;
    };

    unsigned faultAt = 0, seen = 0;
    Fault fault = Fault::None;
    slave.OnRequest = [&](const ModbusRequest&) { return seen++ == faultAt ? fault : Fault::None; };
    bool confirmed = false;
    size_t steps = 1 + g.size(0, 11);
    for (size_t step = 0; step < steps; ++step) {
        auto& r = g.pick(regs);
        auto& s = r.S;
        auto action = g.weighted({4, 3, 1});
        slave.Log.clear();
        seen = 0;
        fault = Fault::None;
        if (action == 2) {
            for (unsigned i = 0; i < s.Words(); ++i)
                slave.Set(s.Table(), s.Addr + shift + i, s.IsBit() ? uint16_t(g.below(2)) : uint16_t(g.bits(16)));
            g.note("change " + s.Str());
            continue;
        }
        if (g.chance(1, 5)) {
            fault = g.pick({Fault::Timeout, Fault::LostAnswer, Fault::Exception, Fault::BadCrc, Fault::WrongFunction, Fault::WrongSlave});
            faultAt = unsigned(g.below(2));
            slave.ExceptionCode = g.pick({4u, 1u, 2u, 3u, 6u, 11u, 0u});
        }
        if (action == 1) {
            if (s.WriteOnly)
                continue;
            faultAt = 0;
            auto range = dev->CreateRegisterRange();
            PBT_CHECK(range->Add(*port, r.R, milliseconds::max()), "the register is not accepted");
            dev->ReadRegisterRange(*port, range);
            PBT_EQ(slave.Log.size(), size_t(1), "requests of a read");
            PBT_CHECK(slave.Log[0].Addr == s.Addr + shift && slave.Log[0].Count == s.Words(), s.Str() << ": request is " << slave.Log[0].Str() << ", shift " << shift);
            if (fault == Fault::None) {
                PBT_CHECK(r.R->GetValue() == s.Expected(slave, shift), s.Str() << ": value is " << r.R->GetValue() << ", expected " << s.Expected(slave, shift));
                if (!s.IsBit())
                    for (unsigned i = 0; i < s.Words(); ++i)
                        known.Cells[0][s.Addr + i] = slave.Get(ModbusSlave::HOLDING, s.Addr + shift + i);
            } else {
                PBT_CHECK(r.R->GetErrorState().test(TRegister::ReadError), s.Str() << ": failure is not reported");
                r.R->SetAvailable(TRegisterAvailability::AVAILABLE);
            }
            g.note("read " + s.Str() + (fault == Fault::None ? "" : " (fails)"));
            sim::advance(milliseconds(200));
            port->Rx.clear();
            continue;
        }
        // --- write
        TRegisterValue value;
        uint64_t num = 0;
        std::string text;
        ModbusSlave expect; // new content of the written words, by unshifted write address
        unsigned words = s.Words();
        if (s.IsString()) {
            size_t most = s.Width * (s.Format == RegisterFormat::String8 ? 2 : 1);
            size_t len = s.WordLittle ? most : g.uniform(1, most);
            for (size_t i = 0; i < len; ++i)
                text += char(g.uniform(1, 254));
            value = TRegisterValue(text);
            std::vector<uint16_t> w;
            if (s.Format == RegisterFormat::String8)
                for (size_t i = 0; i < len; i += 2)
                    w.push_back(uint16_t(uint8_t(text[i]) << 8 | (i + 1 < len ? uint8_t(text[i + 1]) : 0)));
            else
                for (size_t i = 0; i < len; ++i)
                    w.push_back(uint8_t(text[i]));
            words = unsigned(w.size());
            s.Store(expect, w, s.WAddr());
        } else {
            num = s.IsBit() ? g.below(2) : g.bits(g.chance(1, 4) ? 64 : s.Bits());
            value = TRegisterValue(num);
            if (s.IsBit()) {
                expect.Set(ModbusSlave::COIL, s.WAddr(), uint16_t(num));
            } else {
                auto m = knownWords(s);
                s.Put(m, num, s.Addr);
                for (unsigned i = 0; i < words; ++i)
                    expect.Set(ModbusSlave::HOLDING, s.WAddr() + i, m.Get(ModbusSlave::HOLDING, s.Addr + i));
            }
        }
        auto before = slave;
        std::string error;
        int kind = 0;
        try {
            dev->WriteRegister(*port, r.R, value);
        } catch (const TSerialDevicePermanentRegisterException& e) {
            kind = 2;
            error = e.what();
        } catch (const TSerialDeviceTransientErrorException& e) {
            kind = 1;
            error = e.what();
        }
        bool hit = fault != Fault::None && slave.Log.size() > faultAt;
        std::ostringstream what;
        what << "write " << (s.IsString() ? quote(text) : std::to_string(num)) << " to " << s.Str();
        if (hit)
            what << " (fails with " << int(fault) << " " << slave.ExceptionCode << ")";
        g.note(what.str());
        for (auto& q: slave.Log) {
            unsigned fn = s.IsBit() ? 5
                          : s.Type == Modbus::REG_HOLDING_MULTI || (s.Type == Modbus::REG_HOLDING && s.Words() > 1) ? 16 : 6;
            PBT_EQ(q.Fn, fn, what.str() << ": function");
            PBT_CHECK(q.Addr >= s.WAddr() + shift && q.Addr + q.Count <= s.WAddr() + shift + words, what.str() << ": request " << q.Str() << " is out of the register");
            if (fn != 6)
                PBT_EQ(slave.Log.size(), size_t(1), what.str() << ": requests");
        }
        auto table = s.Table();
        auto all = before.Cells[table];
        for (auto& c: slave.Cells[table])
            all[c.first] = before.Get(table, c.first);
        for (auto& c: all) {
            auto now = slave.Get(table, c.first);
            auto e = expect.Cells[table].find(c.first - shift);
            if (e == expect.Cells[table].end() || c.first < shift)
                PBT_CHECK(now == c.second, what.str() << ": " << c.first << " changed from " << c.second << " to " << now);
            else if (hit)
                PBT_CHECK(now == c.second || now == e->second, what.str() << ": " << c.first << " changed from " << c.second << " to " << now << ", expected " << e->second);
        }
        if (!hit) {
            PBT_CHECK(kind == 0, what.str() << ": failed without faults: " << error);
            // words which hold none of the register's bits may be left alone
            for (auto& e: expect.Cells[table]) {
                unsigned own = 0xffff;
                if (!s.IsBit() && !s.IsString()) {
                    ModbusSlave m;
                    for (unsigned i = 0; i < words; ++i)
                        m.Set(table, s.WAddr() + i, 0);
                    s.Put(m, ~0ull, s.WAddr());
                    own = m.Get(table, e.first);
                }
                auto now = slave.Get(table, e.first + shift);
                PBT_CHECK(now == e.second || (own == 0 && now == before.Get(table, e.first + shift)),
                          what.str() << ": word " << e.first << " is " << now << ", expected " << e.second << "; known" << Show(known.Cells[0]));
                if (table == ModbusSlave::HOLDING && !s.WriteOnly && !s.IsString()) {
                    auto at = s.Addr + (e.first - s.WAddr());
                    // confirmed, or not touched
                    if (own)
                        known.Cells[0][at] = e.second;
                }
            }
            confirmed = true;
            label(s.IsBit() ? "coil written" : s.IsString() ? "string written" : s.Width ? "bits written" : "number written");
            labelIf(slave.Log.size() > 1, "several requests");
        } else {
            bool permanent = fault == Fault::Exception && slave.ExceptionCode >= 1 && slave.ExceptionCode <= 3;
            PBT_EQ(kind, permanent ? 2 : 1, what.str() << ": kind of the error");
            PBT_EQ(slave.Log.size(), size_t(faultAt + 1), what.str() << ": requests after the failed one");
            // words written one by one before the failed one are confirmed
            if (table == ModbusSlave::HOLDING && !s.WriteOnly && !s.IsString())
                for (size_t i = 0; i + 1 < slave.Log.size(); ++i) {
                    auto a = slave.Log[i].Addr - shift;
                    known.Cells[0][s.Addr + (a - s.WAddr())] = expect.Get(table, a);
                }
            label(permanent ? "refused" : "failed");
        }
        sim::advance(milliseconds(200));
        port->Rx.clear();
    }
    if (confirmed)
        nontrivial();
    if (wantSample())
        sample(regs[0].S.Str() + " +" + std::to_string(regs.size() - 1) + ", " + std::to_string(steps) + " steps");
}
