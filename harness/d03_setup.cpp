// D03: connecting to a device writes its whole setup section, in order, each item with its value and nothing else;
// a failed attempt is repeated completely; a connected device is left alone.
//
// One case: up to 8 setup items (numbers, bit fields sharing words, strings, coils, write-only ones), limits for merging,
// and a history of connection attempts with faults and disconnections. Requests on the wire are matched to the items.
#include "devices/modbus_io_device.h"
#include "modbus_dev.h"
using namespace pbt;
using std::chrono::milliseconds;

const char* PROPERTY_ID = "D03";
const char* NONTRIVIAL_RULE = "one case = a setup section and a history of connections. Non-trivial: at least two items were written by a successful connection";

namespace
{
    struct Item
    {
        RegSpec S;
        uint64_t Num = 0;
        std::string Text;
        std::vector<uint16_t> Own; // bits of the item in its words, in order of addresses
        std::vector<uint16_t> Want;
        unsigned Words() const
        {
            return unsigned(Own.size());
        }
    };
}

void property(Gen& g)
{
    sim::resetClock();
    auto port = std::make_shared<SimPort>("sim", 0);
    port->Open();
    ModbusSlave slave;
    slave.Tcp = g.chance(1, 4);
    slave.Id = 1 + unsigned(g.below(247));
    slave.Seed = g.bits();
    slave.Attach(*port);

    bool io = g.chance(1, 5);
    auto dc = std::make_shared<TDeviceConfig>("dev", std::to_string(slave.Id) + (io ? ":2" : ""), "modbus");
    dc->ResponseTimeout = milliseconds(100);
    dc->MaxReadRegisters = g.pick({60, 1, 2, 125});
    dc->MaxRegHole = g.pick({0, 2, 10});
    dc->MaxWriteRegisters = g.pick({size_t(1), size_t(2), size_t(3), size_t(10), size_t(123), size_t(0), size_t(200)});
    dc->PreserveSetupOrder = g.chance(1, 3);
    unsigned shift = 0;
    if (io) {
        dc->Stride = 200;
        dc->Shift = g.pick({0, 5});
        shift = 2 * 200 + unsigned(dc->Shift);
    }
    TModbusDeviceConfig mc;
    mc.CommonConfig = dc;
    std::unique_ptr<Modbus::IModbusTraits> traits;
    if (slave.Tcp)
        traits = std::make_unique<Modbus::TModbusTCPTraits>();
    else
        traits = std::make_unique<Modbus::TModbusRTUTraits>();
    static SimProtocol protocol;
    std::shared_ptr<TSerialDevice> dev;
    if (io)
        dev = std::make_shared<TModbusIODevice>(std::move(traits), mc, &protocol);
    else
        dev = std::make_shared<TModbusDevice>(std::move(traits), mc, &protocol);

    // --- items: free words are taken one after another; bit fields share a word
    std::vector<Item> items;
    size_t n = 1 + g.size(0, 8);
    bool byteLittle = g.chance(1, 5);
    unsigned addr = unsigned(g.pick({uint64_t(0), uint64_t(1000), g.below(60000)}));
    int type = Modbus::REG_HOLDING;
    while (items.size() < n) {
        if (!io && g.chance(1, 5))
            type = g.pick({Modbus::REG_HOLDING, Modbus::REG_HOLDING_SINGLE, Modbus::REG_HOLDING_MULTI});
        if (g.chance(1, 5))
            addr += unsigned(g.range(1, 3));
        Item it;
        auto& s = it.S;
        s.Type = type;
        s.Addr = addr;
        s.ByteLittle = byteLittle;
        s.WriteOnly = g.chance(1, 10);
        auto kind = g.weighted({6, 3, 1, 1});
        if (kind == 0) {
            s.Format = g.pick({U16, U32, U8, U24, U64});
            s.WordLittle = s.Type != Modbus::REG_HOLDING_SINGLE && g.chance(1, 5);
            addr += s.Words();
            it.Num = g.bits(s.Bits());
            items.push_back(it);
        } else if (kind == 1) {
            // fields of one register of 16 or 32 bits
            s.Format = g.chance(1, 4) ? U32 : U16;
            s.WordLittle = s.Format == U32 && s.Type != Modbus::REG_HOLDING_SINGLE && g.chance(1, 5);
            s.WriteOnly = false;
            unsigned bits = RegSpec::FormatBits(s.Format);
            unsigned at = 0;
            do {
                at += unsigned(g.below(4));
                if (at >= bits)
                    break;
                s.Offset = at;
                s.Width = unsigned(g.uniform(1, std::min(bits - at, 12u)));
                it.Num = g.bits(s.Width);
                items.push_back(it);
                at += s.Width;
            } while (g.flip() && at < bits);
            // the only user of the word may be write-only
            if (items.size() && items.back().S.Addr == addr && (items.size() < 2 || items[items.size() - 2].S.Addr != addr || items[items.size() - 2].S.IsBit()))
                items.back().S.WriteOnly = g.chance(1, 8);
            addr += bits / 16;
        } else if (kind == 2) {
            s.Format = g.flip() ? RegisterFormat::String : RegisterFormat::String8;
            s.Width = unsigned(g.uniform(1, 5));
            size_t len = g.uniform(1, s.Width * (s.Format == RegisterFormat::String8 ? 2 : 1));
            for (size_t i = 0; i < len; ++i)
                it.Text += char(g.uniform(1, 254));
            addr += s.Words();
            items.push_back(it);
        } else {
            s.Type = Modbus::REG_COIL;
            s.Format = U8;
            s.ByteLittle = false;
            it.Num = g.below(2);
            bool dup = false;
            for (auto& i: items)
                dup |= i.S.IsBit() && i.S.Addr == s.Addr;
            if (!dup)
                items.push_back(it);
            else
                ++addr;
        }
    }
    for (auto& it: items) {
        auto& s = it.S;
        ModbusSlave own, want;
        unsigned words = s.Words();
        if (s.IsString()) {
            std::vector<uint16_t> w;
            auto& t = it.Text;
            if (s.Format == RegisterFormat::String8)
                for (size_t i = 0; i < t.size(); i += 2)
                    w.push_back(uint16_t(uint8_t(t[i]) << 8 | (i + 1 < t.size() ? uint8_t(t[i + 1]) : 0)));
            else
                for (auto c: t)
                    w.push_back(uint8_t(c));
            words = unsigned(w.size());
            s.Store(want, w, s.Addr);
        } else if (s.IsBit()) {
            want.Set(ModbusSlave::COIL, s.Addr, uint16_t(it.Num));
        } else {
            for (unsigned i = 0; i < words; ++i) {
                own.Set(ModbusSlave::HOLDING, s.Addr + i, 0);
                want.Set(ModbusSlave::HOLDING, s.Addr + i, 0);
            }
            s.Put(own, ~0ull, s.Addr);
            s.Put(want, it.Num, s.Addr);
        }
        for (unsigned i = 0; i < words; ++i) {
            it.Own.push_back(s.IsString() || s.IsBit() ? 0xffff : own.Get(s.Table(), s.Addr + i));
            it.Want.push_back(want.Get(s.Table(), s.Addr + i));
        }
    }
    // definition order is not the order of addresses
    for (size_t i = items.size(); i-- > 1;)
        std::swap(items[i], items[i - g.below(std::min<size_t>(i + 1, g.chance(1, 2) ? 1 : i + 1))]);
    for (size_t i = 0; i < items.size(); ++i) {
        auto& it = items[i];
        auto cfg = it.S.Config();
        std::string text = it.S.IsString() ? it.Text : std::to_string(it.Num);
        dev->AddSetupItem(std::make_shared<TDeviceSetupItemConfig>("item" + std::to_string(i), cfg, text));
        g.note(it.S.Str() + " <- " + (it.S.IsString() ? quote(text) : text));
    }
    g.note("MaxWriteRegisters " + std::to_string(dc->MaxWriteRegisters) + (dc->PreserveSetupOrder ? ", order is preserved" : "") +
           (io ? ", modbus_io" : "") + (slave.Tcp ? ", tcp" : ", rtu"));
    if (!dc->PreserveSetupOrder)
        std::stable_sort(items.begin(), items.end(), [](auto& a, auto& b) {
            return std::make_tuple(a.S.Type, a.S.Addr, a.S.Offset) < std::make_tuple(b.S.Type, b.S.Addr, b.S.Offset);
        });
    for (auto& it: items)
        if (g.chance(1, 15))
            slave.WriteIllegal[it.S.Table()].insert(it.S.Addr + shift + unsigned(g.below(it.Words())));

    unsigned maxRegs = dc->MaxWriteRegisters == 0 || dc->MaxWriteRegisters > 123 ? 123 : unsigned(dc->MaxWriteRegisters);
    unsigned faultAt = 0, seen = 0;
    Fault fault = Fault::None;
    struct Done
    {
        ModbusRequest Q;
        bool Refused;
    };
    slave.OnRequest = [&](const ModbusRequest&) { return seen++ == faultAt ? fault : Fault::None; };

    size_t rounds = 1 + g.below(4);
    for (size_t round = 0; round < rounds; ++round) {
        bool connected = false;
        std::vector<ModbusSlave> past;
        for (size_t attempt = 0; !connected; ++attempt) {
            auto before = slave;
            past.push_back(before);
            fault = Fault::None;
            if (attempt < 4 && g.chance(1, 3))
                fault = g.pick({Fault::Timeout, Fault::LostAnswer, Fault::Exception, Fault::BadCrc, Fault::WrongSlave});
            faultAt = unsigned(g.below(items.size() * 2));
            slave.ExceptionCode = g.pick({4u, 6u, 11u});
            seen = 0;
            slave.Log.clear();
            bool threw = false;
            std::string error;
            try {
                dev->Prepare(*port, TDevicePrepareMode::WITH_SETUP_IF_WAS_DISCONNECTED);
            } catch (const TSerialDeviceException& e) {
                threw = true;
                error = e.what();
            }
            bool hit = fault != Fault::None && slave.Log.size() > faultAt;
            auto what = "connection " + std::to_string(round) + "." + std::to_string(attempt) + (hit ? " (fault)" : "") + ": ";
            std::string log;
            for (auto& q: slave.Log)
                log += "\n  " + q.Str();
            PBT_CHECK(threw == hit, what << (threw ? "failed without faults: " + error : "failure is not reported") << log);
            // nothing but bits of the items changes
            for (int t: {ModbusSlave::HOLDING, ModbusSlave::COIL}) {
                auto table = ModbusSlave::Table(t);
                auto all = before.Cells[t];
                for (auto& c: slave.Cells[t])
                    all[c.first] = before.Get(table, c.first);
                if (io)
                    all.erase(114); // continuous read is always requested from modbus_io
                for (auto& c: all) {
                    auto now = slave.Get(table, c.first);
                    unsigned free = 0;
                    bool mine = false;
                    for (auto& it: items)
                        for (unsigned i = 0; i < it.Words(); ++i)
                            if (it.S.Table() == table && it.S.Addr + i + shift == c.first) {
                                mine = true;
                                // a whole register is set with its unused bits
                                free |= !it.S.Width || it.S.WriteOnly ? 0xffff : it.Own[i];
                            }
                    PBT_CHECK(mine || now == c.second, what << "changes " << c.first << log);
                    PBT_CHECK(((now ^ c.second) & ~free) == 0, what << "changes bits out of the items: " << c.first << " from " << c.second << " to " << now << log);
                }
            }
            for (auto& it: items)
                for (unsigned i = 0; i < it.Words(); ++i) {
                    auto a = it.S.Addr + i + shift;
                    auto now = slave.Get(it.S.Table(), a);
                    // an unconfirmed value may be replaced by an earlier one until the setup is complete
                    bool known = (now & it.Own[i]) == (it.Want[i] & it.Own[i]);
                    for (auto& p: past)
                        known |= (now & it.Own[i]) == (p.Get(it.S.Table(), a) & it.Own[i]);
                    PBT_CHECK(known, what << it.S.Str() << " got a wrong value " << now << log);
                }
            if (threw) {
                PBT_CHECK(dev->GetConnectionState() != TDeviceConnectionState::CONNECTED,
                          what << "the device is considered connected, though its setup failed: " << error << log);
                PBT_CHECK(attempt < 8, "no connection");
                label("failed connection");
                sim::advance(milliseconds(200));
                port->Rx.clear();
                continue;
            }
            connected = true;
            PBT_CHECK(dev->GetConnectionState() == TDeviceConnectionState::CONNECTED, what << "the device is not connected" << log);
            // requests are the items in their order
            std::vector<ModbusRequest> w;
            for (auto& q: slave.Log)
                if (q.IsWrite() && !(io && q.Addr == 114))
                    w.push_back(q);
            size_t at = 0;
            size_t merged = 0;
            for (size_t i = 0; i < items.size();) {
                auto& s = items[i].S;
                PBT_CHECK(at < w.size(), what << s.Str() << " is not written" << log);
                size_t count = 1;
                unsigned words = items[i].Words();
                bool refused = false;
                auto isRefused = [&](const ModbusRequest& q) {
                    for (unsigned a = q.Addr; a < q.Addr + q.Count; ++a)
                        if (slave.WriteIllegal[s.Table()].count(a))
                            return true;
                    return false;
                };
                if (s.IsBit()) {
                    PBT_CHECK(w[at].Fn == 5 && w[at].Addr == s.Addr + shift, what << s.Str() << " is written by " << w[at].Str() << log);
                    refused = isRefused(w[at++]);
                } else if (s.Type == Modbus::REG_HOLDING_SINGLE || (s.Type == Modbus::REG_HOLDING && s.Words() == 1 && w[at].Fn == 6)) {
                    for (unsigned k = words; k-- > 0 && !refused;) {
                        PBT_CHECK(at < w.size() && w[at].Fn == 6 && w[at].Addr == s.Addr + shift + k, what << "word " << k << " of " << s.Str() << " is not written" << log);
                        refused = isRefused(w[at++]);
                    }
                } else {
                    auto& q = w[at++];
                    PBT_CHECK(q.Fn == 16 && q.Addr == s.Addr + shift, what << s.Str() << " is written by " << q.Str() << log);
                    while (words < q.Count && i + count < items.size()) {
                        auto& next = items[i + count].S;
                        PBT_CHECK(s.Type == Modbus::REG_HOLDING && next.Type == s.Type && !s.Width && !next.Width && next.Addr == s.Addr + words,
                                  what << next.Str() << " is merged with " << s.Str() << log);
                        words += items[i + count].Words();
                        ++count;
                    }
                    PBT_EQ(q.Count, words, what << "size of the request for " << s.Str() << log);
                    PBT_CHECK(count == 1 || words <= maxRegs, what << words << " registers are written at once" << log);
                    merged += count - 1;
                    refused = isRefused(q);
                }
                for (size_t k = i; k < i + count; ++k)
                    for (unsigned j = 0; j < items[k].Words(); ++j) {
                        auto now = slave.Get(items[k].S.Table(), items[k].S.Addr + shift + j);
                        PBT_CHECK(refused || (now & items[k].Own[j]) == (items[k].Want[j] & items[k].Own[j]),
                                  what << items[k].S.Str() << " is not set: word " << j << " is " << now << log);
                    }
                labelIf(refused, "refused item");
                i += count;
            }
            PBT_CHECK(at == w.size(), what << "extra request " << w[at].Str() << log);
            labelIf(merged > 0, "merged");
            if (items.size() > 1)
                nontrivial();
            port->Rx.clear();
            // a connected device is not set up again
            slave.Log.clear();
            fault = Fault::None;
            dev->Prepare(*port, TDevicePrepareMode::WITH_SETUP_IF_WAS_DISCONNECTED);
            PBT_CHECK(slave.Log.empty(), "a connected device is set up again: " << slave.Log[0].Str());
        }
        // lost, with its settings
        sim::advance(milliseconds(5000));
        for (int i = 0; i < 3; ++i)
            dev->SetTransferResult(false);
        PBT_CHECK(dev->GetConnectionState() == TDeviceConnectionState::DISCONNECTED, "the device is not considered disconnected");
        if (g.flip())
            for (auto& it: items)
                for (unsigned i = 0; i < it.Words(); ++i) {
                    auto a = it.S.Addr + shift + i;
                    auto now = slave.Get(it.S.Table(), a);
                    slave.Set(it.S.Table(), a, it.S.IsBit() ? uint16_t(g.below(2)) : uint16_t((now & ~it.Own[i]) | (g.bits(16) & it.Own[i])));
                }
    }
    label(items.size() > 1 ? "several items" : "one item");
    if (wantSample())
        sample(items[0].S.Str() + " +" + std::to_string(items.size() - 1) + ", " + std::to_string(rounds) + " connections");
}
