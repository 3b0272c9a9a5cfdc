// M04: Fast Modbus events, scan and requests by serial number. Oracle: simulated devices that follow the public
// description of the protocol, and a model of the reader that is fed with the bytes the line really delivered.
#include "fastmodbus.h"
#include "modbus_dev.h"
#include "modbus_ext_common.h"
#include "port/feature_port.h"
#include "serial_client_events_reader.h"
#include <set>
const char* PROPERTY_ID = "M04";
const char* NONTRIVIAL_RULE =
    "one case = one of: a history of up to 30 operations (change of registers, reading of events, enabling, reboot, disconnection) with up to 4 devices of up to 40 registers on an "
    "RTU line with arbitration or a TCP line, requests and answers lost or damaged; a scan of up to 8 devices; a request by serial number. "
    "Non-trivial: at least 2 events were delivered and at least one exchange failed, or a scan found a device, or an answer by serial number was judged";
using namespace pbt;
using namespace std::chrono;
using namespace std::chrono_literals;

enum class LineFault
{
    None,
    RequestLost,
    AnswerLost,
    Flips,
    Truncated,
    Exception,  // enabling only
    ShortMask,  // enabling only: consistent answer with fewer bytes than needed
    WrongSize,  // enabling only: the size byte promises more than there is
    WrongCode   // subcommand of something else
};
static const char* FAULT[] = {"ok", "request lost", "answer lost", "flips", "truncated", "exception", "short mask", "wrong size", "wrong code"};

struct Reg
{
    RegSpec S;
    PRegister R;
    bool OnlyEvents = true, Supported = true;
    bool Excluded = false;
    fm::RegKey Key() const
    {
        uint8_t t = S.Type == Modbus::REG_COIL ? 1 : S.Type == Modbus::REG_DISCRETE ? 2 : S.Type == Modbus::REG_INPUT ? 4 : 3;
        return {t, uint16_t(S.Addr)};
    }
};
struct Dev
{
    fm::Device F;
    std::shared_ptr<TModbusDevice> D;
    std::vector<Reg> Regs;
    bool SporadicOnly = true, High = false;
    int States = 0;
    std::vector<size_t> At(fm::RegKey k) const
    {
        std::vector<size_t> r;
        for (size_t i = 0; i < Regs.size(); ++i)
            if (!Regs[i].S.IsString() && Regs[i].Key() == k)
                r.push_back(i);
        return r;
    }
};
struct Group // callbacks expected in any order
{
    std::string What;
    std::multiset<const TRegister*> Regs;
    bool Value = false;
    uint64_t Raw = 0;
    bool Error = false;
};

struct Bus
{
    Gen& G;
    bool Tcp;
    std::shared_ptr<SimPort> Port;
    std::shared_ptr<TFeaturePort> FPort;
    std::vector<std::unique_ptr<Dev>> Devs;
    unsigned FaultRate = 0; // of 16
    // model of the reader
    uint8_t Start = 0, ConfSlave = 0, ConfFlag = 0;
    unsigned Errors = 0;
    bool ClearOnSuccess = false;
    std::set<uint8_t> Active, Maybe; // devices with enabled events; Maybe: after a damaged answer
    std::deque<Group> Expect;
    std::vector<std::pair<uint8_t, fm::RegKey>> Unexpected;
    // the exchange on the line
    bool Pending = false, Intact = false, PendingEvents = false;
    size_t GotAt = 0;
    std::vector<uint8_t> Answer;
    // what happened
    bool Reading = false, NoMore = false;
    unsigned Delivered = 0, Failed = 0, Exchanges = 0;
    int64_t CallStart = 0, CallMax = 0;
    std::vector<std::vector<uint8_t>> EnableRequests; // pdu
    std::vector<LineFault> EnableFaults;
    std::vector<std::vector<uint8_t>> EnableAnswers;
    std::vector<uint8_t> EnableSlaves;

    Bus(Gen& g): G(g)
    {
        Tcp = g.chance(1, 5);
        Port = std::make_shared<SimPort>("fm", Tcp ? 1145833 : 11ull * 1000000000ull / g.pick({115200, 9600, 1200}));
        FPort = std::make_shared<TFeaturePort>(Port, Tcp, Tcp);
        Port->Open();
        Port->OnWrite = [this](const std::vector<uint8_t>& q) { OnRequest(q); };
    }
    Dev* Find(uint8_t id)
    {
        for (auto& d: Devs)
            if (d->F.Id == id)
                return d.get();
        return nullptr;
    }
    LineFault PickFault(bool enabling)
    {
        if (!FaultRate || !G.chance(FaultRate, 16))
            return LineFault::None;
        if (enabling)
            return G.pick({LineFault::RequestLost, LineFault::AnswerLost, LineFault::Flips, LineFault::Truncated, LineFault::Exception,
                           LineFault::ShortMask, LineFault::WrongSize, LineFault::WrongCode});
        return G.pick({LineFault::RequestLost, LineFault::AnswerLost, LineFault::Flips, LineFault::Truncated, LineFault::WrongCode});
    }
    void Send(std::vector<uint8_t> adu, LineFault f, bool arbitration)
    {
        // adu: slave + pdu
        bool intact = f == LineFault::None;
        std::vector<uint8_t> frame;
        if (Tcp) {
            ref::be16(frame, Tid);
            ref::be16(frame, 0);
            ref::be16(frame, unsigned(adu.size()));
            frame.insert(frame.end(), adu.begin(), adu.end());
            // the only damage that the protocol detects
            if (f == LineFault::Flips || f == LineFault::Truncated)
                return;
        } else {
            ref::appendCrc(adu);
            frame = adu;
            if (f == LineFault::Truncated)
                frame.resize(G.range(1, frame.size() - 1));
            if (f == LineFault::Flips)
                for (size_t i = G.range(1, 3), bit = G.below(frame.size() * 8); i > 0; --i, bit = (bit + 1 + G.below(5)) % (frame.size() * 8))
                    frame[bit / 8] ^= uint8_t(1 << (bit % 8));
            if (arbitration) {
                std::vector<uint8_t> ff(G.range(0, 32), 0xff);
                frame.insert(frame.begin(), ff.begin(), ff.end());
            }
        }
        if (intact)
            Answer = Tcp ? adu : std::vector<uint8_t>(adu.begin(), adu.end() - 2);
        Intact = intact;
        size_t cut = G.chance(1, 4) ? G.below(frame.size() + 1) : 0;
        if (cut)
            Port->Push(500000, std::vector<uint8_t>(frame.begin(), frame.begin() + cut));
        if (cut < frame.size())
            Port->Push(600000, std::vector<uint8_t>(frame.begin() + cut, frame.end()));
    }
    unsigned Tid = 0;
    void OnRequest(const std::vector<uint8_t>& q)
    {
        Settle();
        PBT_CHECK(++Exchanges < 5000, "endless exchanges");
        Port->Rx.clear();
        uint8_t slave;
        std::vector<uint8_t> pdu;
        if (Tcp) {
            PBT_CHECK(q.size() > 8 && size_t(q[4] << 8 | q[5]) == q.size() - 6, "header of the request: " << hex(q));
            Tid = q[0] << 8 | q[1];
            slave = q[6];
            pdu.assign(q.begin() + 7, q.end());
        } else {
            PBT_CHECK(q.size() > 4 && ref::crcOk(q), "CRC of the request: " << hex(q));
            slave = q[0];
            pdu.assign(q.begin() + 1, q.end() - 2);
        }
        PBT_CHECK(pdu[0] == 0x46, "unexpected request " << hex(q));
        if (slave == 0xfd) {
            EventsRequest(pdu);
        } else {
            EnableRequest(slave, pdu);
        }
    }
    void EventsRequest(const std::vector<uint8_t>& pdu)
    {
        PBT_CHECK(pdu.size() == 6 && pdu[1] == 0x10, "request of events: " << hex(pdu));
        PBT_CHECK(Reading, "events are asked unexpectedly");
        PBT_CHECK(pdu[2] == Start, "events are asked from the slave " << int(pdu[2]) << ", expected " << int(Start));
        PBT_CHECK(pdu[4] == ConfSlave && pdu[5] == ConfFlag, "the request confirms slave " << int(pdu[4]) << " flag " << int(pdu[5])
                                                                                            << ", the last packet was of slave " << int(ConfSlave)
                                                                                            << " flag " << int(ConfFlag));
        PBT_CHECK(pdu[3] >= 6 && pdu[3] <= 248, "the request allows " << int(pdu[3]) << " bytes of events");
        int64_t left = CallMax - (sim::nowNs() - CallStart);
        if (pdu[3] > 6)
            PBT_CHECK(int64_t(pdu[3]) * int64_t(Port->ByteNs) <= left + int64_t(14 * Port->ByteNs) + 1000000,
                      "the request allows " << int(pdu[3]) << " bytes of events, time left " << left / 1000 << " us");
        auto f = PickFault(false);
        Pending = true;
        PendingEvents = true;
        Intact = false;
        GotAt = Port->AllGot.size();
        G.note(std::string("  events request ") + hex(pdu) + " " + FAULT[int(f)] + " " + std::to_string(sim::nowNs() / 1000) + "us");
        if (f == LineFault::RequestLost)
            return;
        for (auto& d: Devs)
            if (d->F.Id == pdu[4])
                d->F.Confirm(pdu[5]);
        Dev* best = nullptr;
        for (auto& d: Devs)
            if (!d->F.Queue.empty() && d->F.Id >= pdu[2] && (!best || d->F.Id < best->F.Id))
                best = d.get();
        std::vector<uint8_t> adu;
        if (best) {
            adu = best->F.Events(pdu[3]);
            adu.insert(adu.begin(), best->F.Id);
        } else {
            adu = {0xfd, 0x46, 0x12};
        }
        if (f == LineFault::WrongCode)
            adu[2] = G.pick({0x03, 0x04, 0x18, 0x00});
        G.note("    answer " + hex(adu));
        if (f == LineFault::AnswerLost)
            return;
        Send(adu, f, true);
    }
    void EnableRequest(uint8_t slave, const std::vector<uint8_t>& pdu)
    {
        auto* d = Find(slave);
        PBT_CHECK(d, "events of an unknown slave " << int(slave) << " are set: " << hex(pdu));
        auto recs = fm::Device::ParseEnable(pdu);
        auto f = PickFault(true);
        Pending = true;
        PendingEvents = false;
        Intact = false;
        GotAt = Port->AllGot.size();
        G.note("  to " + std::to_string(slave) + " enable " + hex(pdu) + " " + FAULT[int(f)]);
        EnableSlaves.push_back(slave);
        EnableRequests.push_back(pdu);
        EnableAnswers.push_back({});
        if (f == LineFault::RequestLost) {
            EnableFaults.push_back(f);
            return;
        }
        std::vector<uint8_t> adu;
        if (f == LineFault::Exception) {
            adu = {uint8_t(0x46 | 0x80), uint8_t(G.range(1, 11))};
        } else {
            adu = d->F.Enable(recs);
            EnableAnswers.back() = adu;
            if (f == LineFault::ShortMask) {
                size_t n = adu.size() - 3;
                n = G.below(n);
                adu.resize(3 + n);
                adu[2] = uint8_t(n);
            }
            if (f == LineFault::WrongSize)
                adu.resize(3 + G.below(adu.size() - 3));
            if (f == LineFault::WrongCode)
                adu[1] = G.pick({0x11, 0x12, 0x09, 0x00});
        }
        EnableFaults.push_back(f);
        G.note("    answer " + hex(adu));
        if (f == LineFault::AnswerLost)
            return;
        adu.insert(adu.begin(), slave);
        Send(adu, f, false);
    }
    // the exchange is over: what should the reader have done
    void Settle()
    {
        if (!Pending)
            return;
        Pending = false;
        if (!PendingEvents)
            return;
        std::vector<uint8_t> adu;
        if (Tcp) {
            if (Intact)
                adu = Answer;
        } else if (Port->AllGot.size() > GotAt) {
            auto& got = Port->AllGot[GotAt];
            size_t at = fm::FindPacket(got);
            if (at != size_t(-1))
                adu.assign(got.begin() + at, got.end() - 2);
            if (Intact)
                PBT_CHECK(adu == Answer, "an intact answer was not read completely: [" << hex(got) << "]");
        }
        bool ok = adu.size() >= 3 && (adu[2] == 0x11 || adu[2] == 0x12);
        if (!ok) {
            ++Failed;
            if (++Errors > 10) {
                Errors = 0;
                ClearOnSuccess = true;
                ErrorGroup(true);
            }
            return;
        }
        Errors = 0;
        if (adu[2] == 0x12) {
            Start = ConfSlave = ConfFlag = 0;
            NoMore = true;
        } else {
            auto* d = Find(adu[0]);
            PBT_CHECK(d, "simulator: answer of an unknown slave");
            ConfSlave = adu[0];
            ConfFlag = adu[3];
            Start = adu[0];
            size_t n = 0;
            for (size_t i = 6; i < adu.size(); ++n) {
                fm::RegKey k{adu[i + 1], uint16_t(adu[i + 2] << 8 | adu[i + 3])};
                size_t len = adu[i];
                uint64_t raw = 0;
                for (size_t b = 0; b < len && b < 8; ++b)
                    raw |= uint64_t(adu[i + 4 + b]) << (8 * b);
                i += 4 + len;
                ++d->F.Queue.at(n).Accepted;
                ++Delivered;
                if (k.first == 15) {
                    Active.erase(adu[0]);
                    Maybe.erase(adu[0]);
                    label("reboot");
                    continue;
                }
                auto at = d->At(k);
                if (at.empty()) {
                    if (k.first >= 1 && k.first <= 4)
                        Unexpected.push_back({adu[0], k});
                    label("unexpected event");
                    continue;
                }
                Group gr;
                gr.What = "event of slave " + std::to_string(adu[0]) + " " + d->Regs[at[0]].S.Str();
                gr.Value = true;
                gr.Raw = raw;
                for (auto r: at)
                    gr.Regs.insert(d->Regs[r].R.get());
                Expect.push_back(gr);
            }
        }
        if (ClearOnSuccess) {
            ClearOnSuccess = false;
            ErrorGroup(false);
        }
    }
    void ErrorGroup(bool error)
    {
        Group gr;
        gr.What = error ? "read errors" : "end of read errors";
        gr.Error = error;
        for (auto& d: Devs)
            for (auto& r: d->Regs)
                if (!r.S.IsString() && (r.Excluded || d->SporadicOnly))
                    gr.Regs.insert(r.R.get());
        label(error ? "read errors" : "read errors cleared");
        if (!gr.Regs.empty())
            Expect.push_back(gr);
    }
    void Callback(const PRegister& r)
    {
        Settle();
        PBT_CHECK(!Expect.empty(), "callback for " << r->ToString() << " without an event");
        auto& gr = Expect.front();
        auto it = gr.Regs.find(r.get());
        PBT_CHECK(it != gr.Regs.end(), "callback for " << r->ToString() << ", expected " << gr.What);
        gr.Regs.erase(it);
        if (gr.Value) {
            for (auto& d: Devs)
                for (auto& x: d->Regs)
                    if (x.R.get() == r.get()) {
                        uint64_t want = (gr.Raw >> x.S.Offset) & x.S.Mask();
                        PBT_CHECK(r->GetValue() == TRegisterValue(want), r->ToString() << ": event data " << std::hex << gr.Raw << ", expected value " << want
                                                                                       << ", got " << r->GetValue().Get<uint64_t>());
                    }
            PBT_CHECK(!r->GetErrorState().test(TRegister::TError::ReadError) || !r->IsSupported(), r->ToString() << " has a read error after an event");
            PBT_CHECK(r->GetAvailable() == TRegisterAvailability::AVAILABLE, r->ToString() << " is not available after an event");
        } else {
            PBT_CHECK(r->GetErrorState().test(TRegister::TError::ReadError) == gr.Error, r->ToString() << ": " << gr.What);
        }
        if (gr.Regs.empty())
            Expect.pop_front();
    }
    void Done()
    {
        Settle();
        PBT_CHECK(Expect.empty(), "not passed on: " << Expect.front().What);
    }
};

static void AddRegisters(Gen& g, Dev& d)
{
    size_t n = g.chance(1, 6) ? g.range(20, 40) : g.size(1, 8);
    unsigned addr = unsigned(g.pick({0, 10, 250, 65000}));
    bool far = g.chance(1, 4);
    std::set<std::pair<int, unsigned>> used;
    for (size_t i = 0; i < n && addr < 65530; ++i) {
        Reg r;
        r.S.Type = g.pick({Modbus::REG_HOLDING, Modbus::REG_INPUT, Modbus::REG_COIL, Modbus::REG_DISCRETE, Modbus::REG_HOLDING_SINGLE, Modbus::REG_HOLDING_MULTI});
        bool same = i && g.chance(1, 6);
        if (!same)
            addr += unsigned(far ? g.range(1, 40) : g.range(1, 7));
        r.S.Addr = addr;
        if (r.S.IsBit()) {
            r.S.Format = U8;
        } else {
            r.S.Format = g.pick({U16, S16, U8, U16, U32, U64, RegisterFormat::Float});
            if (RegSpec::FormatBits(r.S.Format) <= 16 && g.chance(1, 3)) {
                // a field of the register
                r.S.Format = U16;
                r.S.Width = unsigned(g.uniform(1, 16));
                r.S.Offset = unsigned(g.uniform(0, 16 - r.S.Width));
            } else if (g.chance(1, 12)) {
                r.S.Format = RegisterFormat::String;
                r.S.Width = 3;
            }
        }
        r.OnlyEvents = g.chance(3, 4);
        d.Regs.push_back(r);
    }
    d.High = g.chance(1, 3);
}
static void CreateDevice(Bus& b, Dev& d)
{
    static SimProtocol rtu("modbus"), tcp("modbus-tcp");
    auto c = std::make_shared<TDeviceConfig>("dev" + std::to_string(d.F.Id), std::to_string(d.F.Id), b.Tcp ? "modbus-tcp" : "modbus");
    c->Id = c->Name;
    TModbusDeviceConfig mc;
    mc.CommonConfig = c;
    d.D = std::make_shared<TModbusDevice>(b.Tcp ? std::unique_ptr<Modbus::IModbusTraits>(std::make_unique<Modbus::TModbusTCPTraits>())
                                                : std::unique_ptr<Modbus::IModbusTraits>(std::make_unique<Modbus::TModbusRTUTraits>()),
                                          mc, b.Tcp ? &tcp : &rtu);
    for (auto& r: d.Regs) {
        auto rc = r.S.Config();
        rc->SporadicMode = r.OnlyEvents ? TRegisterConfig::TSporadicMode::ONLY_EVENTS : TRegisterConfig::TSporadicMode::EVENTS_AND_POLLING;
        if (d.High)
            rc->ReadPeriod = 100ms;
        r.R = d.D->AddRegister(rc);
        if (!r.Supported)
            r.R->SetSupported(false);
    }
    d.D->SetSporadicOnly(d.SporadicOnly);
    auto* raw = &d;
    d.D->AddOnConnectionStateChangedCallback([raw](PSerialDevice) { ++raw->States; });
}

static void History(Gen& g)
{
    Bus b(g);
    TSerialClientEventsReader reader(10);
    size_t nd = g.size(1, 4);
    uint8_t id = 0;
    for (size_t i = 0; i < nd; ++i) {
        auto d = std::make_unique<Dev>();
        id = uint8_t(id + g.range(1, 60));
        d->F.Id = id;
        d->SporadicOnly = !g.chance(1, 3);
        AddRegisters(g, *d);
        if (g.chance(1, 8)) // the firmware is too old for a register
            for (auto& r: d->Regs)
                if (r.S.Addr == d->Regs[0].S.Addr)
                    r.Supported = false;
        CreateDevice(b, *d);
        for (auto& r: d->Regs)
            if (!g.chance(1, 8))
                d->F.Capable.insert(r.Key());
        if (g.chance(1, 3)) { // enabled before by somebody else
            for (size_t k = g.range(1, 3); k > 0; --k) {
                fm::RegKey x{uint8_t(g.range(1, 4)), uint16_t(g.flip() ? g.range(0, 300) : g.range(0, 65535))};
                d->F.Capable.insert(x);
                d->F.Enabled[x] = 1;
            }
        }
        b.Devs.push_back(std::move(d));
    }
    std::list<PSerialDevice> list;
    for (auto& d: b.Devs)
        list.push_back(d->D);
    reader.SetDevices(list);
    auto cb = [&](PRegister r) { b.Callback(r); };
    if (g.replaying())
        for (auto& d: b.Devs) {
            g.note("device " + std::to_string(d->F.Id) + (d->SporadicOnly ? " sporadic only" : ""));
            for (auto& r: d->Regs)
                g.note("  " + r.S.Str() + (r.OnlyEvents ? "" : " semi") + (r.Supported ? "" : " not supported") + (d->F.Capable.count(r.Key()) ? "" : " no events"));
        }
    uint64_t serial = 0;
    auto checkState = [&] {
        b.Done();
        for (auto& d: b.Devs) {
            for (auto& r: d->Regs)
                PBT_CHECK(r.R->IsExcludedFromPolling() == r.Excluded, "device " << int(d->F.Id) << " " << r.S.Str() << (r.Excluded ? " is still polled" : " is not polled"));
        }
        if (!b.Active.empty() || b.Maybe.empty())
            PBT_CHECK(reader.HasDevicesWithEnabledEvents() == !b.Active.empty(),
                      (b.Active.empty() ? "no device" : "a device") << " has events enabled, the reader says the opposite");
    };
    auto read = [&](int64_t maxMs) {
        b.Reading = true;
        b.NoMore = false;
        b.CallStart = sim::nowNs();
        b.CallMax = maxMs * 1000000;
        b.EnableRequests.clear();
        b.EnableFaults.clear();
        b.EnableAnswers.clear();
        b.EnableSlaves.clear();
        b.Unexpected.clear();
        auto before = b.Exchanges;
        std::vector<TDeviceConnectionState> states;
        std::set<uint8_t> rebooting;
        reader.ReadEvents(*b.FPort, milliseconds(maxMs), cb, std::chrono::steady_clock::now);
        b.Settle();
        b.Reading = false;
        PBT_CHECK(b.Exchanges > before, "no events were asked");
        // either there are no more events or the time is over
        PBT_CHECK(b.NoMore || sim::nowNs() - b.CallStart >= b.CallMax, "reading of events stopped early");
        // unexpected events are switched off
        std::set<std::pair<uint8_t, fm::RegKey>> want(b.Unexpected.begin(), b.Unexpected.end()), got;
        for (size_t i = 0; i < b.EnableRequests.size(); ++i)
            for (auto& r: fm::Device::ParseEnable(b.EnableRequests[i]))
                for (size_t k = 0; k < r.Prio.size(); ++k) {
                    PBT_CHECK(r.Prio[k] == 0, "events are enabled while reading: " << hex(b.EnableRequests[i]));
                    got.insert({b.EnableSlaves[i], {r.Type, uint16_t(r.Addr + k)}});
                }
        for (auto& x: got)
            PBT_CHECK(want.count(x), "events of slave " << int(x.first) << " type " << int(x.second.first) << " address " << x.second.second << " are disabled");
        bool enableFailed = false;
        for (auto f: b.EnableFaults)
            enableFailed |= f != LineFault::None;
        for (auto& x: want)
            PBT_CHECK(got.count(x) || enableFailed, "unexpected events of slave " << int(x.first) << " type " << int(x.second.first) << " address " << x.second.second << " are not disabled");
    };
    auto enable = [&](Dev& d) {
        b.EnableRequests.clear();
        b.EnableFaults.clear();
        b.EnableAnswers.clear();
        b.EnableSlaves.clear();
        bool transient = false;
        b.Active.erase(d.F.Id);
        b.Maybe.erase(d.F.Id);
        try {
            reader.EnableEvents(d.D, *b.FPort);
        } catch (const TSerialDeviceTransientErrorException& e) {
            transient = true;
            g.note(std::string("  transient: ") + e.what());
        }
        b.Settle();
        // what should have been asked
        std::map<fm::RegKey, uint8_t> want, got;
        for (auto& r: d.Regs)
            if (!r.S.IsString() && r.Supported)
                want[r.Key()] = d.High ? 2 : 1;
        if (!want.empty())
            want[{15, 0}] = 0;
        bool failed = false;
        LineFault last = LineFault::None;
        for (size_t i = 0; i < b.EnableRequests.size(); ++i) {
            PBT_CHECK(!failed, "the next request of enabling is sent after a failed one");
            PBT_CHECK(b.EnableSlaves[i] == d.F.Id, "events of another device are set");
            auto recs = fm::Device::ParseEnable(b.EnableRequests[i]);
            last = b.EnableFaults[i];
            failed = last != LineFault::None;
            size_t at = 3;
            auto& ans = b.EnableAnswers[i];
            for (auto& r: recs) {
                for (size_t k = 0; k < r.Prio.size(); ++k) {
                    fm::RegKey key{r.Type, uint16_t(r.Addr + k)};
                    auto w = want.find(key);
                    if (w == want.end()) {
                        PBT_CHECK(r.Prio[k] == 0 && k && k + 1 < r.Prio.size(), "device " << int(d.F.Id) << ": events of type " << int(r.Type) << " address " << key.second << " are set: " << hex(b.EnableRequests[i]));
                    } else {
                        PBT_CHECK(r.Prio[k] == w->second, "priority of type " << int(r.Type) << " address " << key.second << " in " << hex(b.EnableRequests[i]));
                        PBT_CHECK(got.emplace(key, r.Prio[k]).second, "type " << int(r.Type) << " address " << key.second << " is set twice");
                    }
                    if (!failed) {
                        bool on = ans.at(at + k / 8) >> (k % 8) & 1;
                        for (auto x: d.At(key)) {
                            auto& reg = d.Regs[x];
                            if (reg.S.IsString())
                                continue;
                            if (on) {
                                if (reg.OnlyEvents)
                                    reg.Excluded = true;
                                b.Active.insert(d.F.Id);
                                PBT_CHECK(reg.R->GetAvailable() == TRegisterAvailability::AVAILABLE, reg.S.Str() << " is not available after its events are enabled");
                            } else {
                                reg.Excluded = false;
                            }
                        }
                    }
                }
                at += (r.Prio.size() + 7) / 8;
            }
            label(FAULT[int(last)]);
        }
        if (b.EnableRequests.size() > 1)
            label("several requests of enabling");
        if (!failed) {
            PBT_CHECK(got == want, "device " << int(d.F.Id) << ": " << got.size() << " registers of " << want.size() << " are set");
            PBT_CHECK(!transient, "enabling of events fails without a reason");
            // a device without other registers is polled by one of them
            bool any = false;
            for (auto& r: d.Regs)
                any |= r.Excluded;
            if (d.SporadicOnly && any && !want.empty()) {
                size_t n = 0;
                for (auto& r: d.Regs)
                    if (r.Excluded && !r.R->IsExcludedFromPolling()) {
                        r.Excluded = false;
                        ++n;
                        auto c = r.R->GetConfig();
                        PBT_CHECK(c->ReadPeriod || c->ReadRateLimit == 500ms, "period of the poll of a device with events only");
                    }
                PBT_CHECK(n == 1, n << " registers of a device with events only are polled");
                label("one register is polled");
            }
        } else if (last == LineFault::RequestLost || last == LineFault::AnswerLost || last == LineFault::Exception || (b.Tcp && (last == LineFault::Flips || last == LineFault::Truncated))) {
            PBT_CHECK(!transient, FAULT[int(last)] << ": the device is treated as failed");
        } else {
            PBT_CHECK(transient, FAULT[int(last)] << ": a damaged answer is taken");
            // what was in the answer before the damage may have been used
            if (last == LineFault::ShortMask || last == LineFault::WrongSize) {
                for (auto& r: d.Regs)
                    r.Excluded = r.R->IsExcludedFromPolling();
                b.Maybe.insert(d.F.Id);
            }
        }
    };

    b.FaultRate = g.pick({0u, 1u, 3u, 8u, 14u});
    size_t ops = g.size(2, 30);
    auto rate = b.FaultRate;
    // usually the events are enabled first
    if (g.chance(3, 4)) {
        b.FaultRate = 0;
        for (auto& d: b.Devs) {
            g.note("enable " + std::to_string(d->F.Id));
            enable(*d);
            checkState();
        }
        b.FaultRate = rate;
    }
    auto change = [&](Dev& d) {
        size_t n = g.size(1, 6);
        for (size_t i = 0; i < n; ++i) {
            fm::RegKey k;
            size_t len;
            if (!d.F.Enabled.empty() && g.chance(1, 8)) {
                auto it = d.F.Enabled.begin();
                std::advance(it, g.below(d.F.Enabled.size()));
                k = it->first;
                len = k.first <= 2 ? 1 : 2;
            } else {
                auto& r = d.Regs[g.below(d.Regs.size())];
                k = r.Key();
                len = r.S.IsBit() ? 1 : 2 * std::min(4u, r.S.Words());
            }
            if (len > 2 && b.CallMax >= 0 && !g.chance(1, 4))
                len = 2; // most registers are 16-bit
            if (len > 2)
                len = 2;
            auto data = std::vector<uint8_t>();
            for (size_t j = 0; j < len; ++j)
                data.push_back(k.first <= 2 ? uint8_t(g.below(2)) : uint8_t(g.bits(8)));
            d.F.Changed(k, data, ++serial);
        }
    };
    for (size_t op = 0; op < ops; ++op) {
        auto& d = *b.Devs[g.below(b.Devs.size())];
        switch (g.weighted({6, 6, 3, 1, 1, 1})) {
            case 0:
                change(d);
                g.note("changes of " + std::to_string(d.F.Id) + ", " + std::to_string(d.F.Queue.size()) + " events wait");
                break;
            case 1: {
                int64_t ms = int64_t(g.pick({1, 10, 25, 50, 100}));
                g.note("read for " + std::to_string(ms) + " ms");
                std::map<Dev*, int> st;
                read(ms);
                break;
            }
            case 2:
                g.note("enable " + std::to_string(d.F.Id));
                enable(d);
                break;
            case 3: {
                g.note("reboot of " + std::to_string(d.F.Id));
                d.F.Reboot();
                // the protocol can't tell a new packet from the last one taken if they have the same flag
                if (b.ConfSlave == d.F.Id)
                    d.F.Flag = b.ConfFlag;
                // deliver it; the device must be set up again
                bool known = false; // the reader knows a device by its registers with events
                for (auto& r: d.Regs)
                    known |= !r.S.IsString();
                if (known && d.D->GetConnectionState() != TDeviceConnectionState::DISCONNECTED && g.flip() && b.FaultRate < 8) {
                    auto st = d.States;
                    for (int i = 0; i < 40 && !d.F.Queue.empty() && !d.F.Queue.front().Accepted; ++i) {
                        read(100);
                        b.Done();
                    }
                    if (d.F.Queue.empty() || d.F.Queue.front().Accepted) {
                        PBT_CHECK(d.D->GetConnectionState() == TDeviceConnectionState::DISCONNECTED && d.States == st + 1,
                                  "the reboot of device " << int(d.F.Id) << " is not noticed");
                        label("reboot noticed");
                    }
                }
                break;
            }
            case 4:
                g.note("disconnection of " + std::to_string(d.F.Id));
                d.D->SetTransferResult(true);
                d.D->SetDisconnected();
                b.Active.erase(d.F.Id);
                b.Maybe.erase(d.F.Id);
                break;
            default:
                g.note("connection of " + std::to_string(d.F.Id));
                d.D->SetTransferResult(true);
        }
        checkState();
    }
    // without failures all the events come
    b.FaultRate = 0;
    g.note("drain");
    for (int i = 0; i < 200; ++i) {
        read(100);
        checkState();
        bool empty = b.NoMore;
        for (auto& d: b.Devs)
            for (auto& e: d->F.Queue)
                empty &= d->F.Outstanding && e.Accepted == 1 && false;
        if (empty)
            break;
        PBT_CHECK(i < 199, "events are not read");
    }
    evaluations(b.Exchanges);
    if (b.Tcp)
        label("Modbus TCP");
    if (b.Delivered >= 2 && b.Failed)
        nontrivial();
    if (wantSample())
        sample(std::to_string(nd) + " devices, " + std::to_string(ops) + " operations, " + std::to_string(b.Exchanges) + " exchanges, " +
               std::to_string(b.Failed) + " failed, " + std::to_string(b.Delivered) + " events");
}

static void Scan(Gen& g)
{
    bool deprecated = g.chance(1, 4);
    uint8_t cmd = deprecated ? 0x60 : 0x46;
    SimPort port("scan", 11ull * 1000000000ull / g.pick({115200, 9600, 1200}));
    port.Open();
    size_t n = g.size(0, 8);
    std::vector<std::pair<uint8_t, uint32_t>> devs;
    for (size_t i = 0; i < n; ++i)
        devs.push_back({uint8_t(g.range(0, 247)), uint32_t(g.bits(32))});
    size_t failAt = g.chance(1, 3) ? g.below(n + 2) : size_t(-1);
    int how = int(g.below(4));
    size_t step = 0;
    bool started = false, finished = false;
    std::vector<std::pair<uint8_t, uint32_t>> want;
    bool broken = false, silent = false;
    port.OnWrite = [&](const std::vector<uint8_t>& q) {
        PBT_CHECK(!broken && !finished, "the scan goes on after its end");
        PBT_CHECK(q.size() == 5 && ref::crcOk(q) && q[0] == 0xfd && q[1] == cmd, "scan request " << hex(q));
        PBT_CHECK(q[2] == (started ? 2 : 1), "scan command " << int(q[2]) << " at step " << step);
        started = true;
        std::vector<uint8_t> a{0xfd, cmd};
        if (step < devs.size()) {
            auto& d = devs[step];
            a.push_back(3);
            ref::be16(a, d.second >> 16);
            ref::be16(a, d.second & 0xffff);
            a.push_back(d.first);
        } else {
            a.push_back(4);
        }
        bool fail = step == failAt;
        ++step;
        if (fail) {
            broken = true;
            if (how == 0) {
                silent = true;
                return;
            }
            if (how == 1)
                a[2] = 9;
        }
        ref::appendCrc(a);
        if (fail && how == 2)
            a[g.below(a.size() - 1) + 1] ^= uint8_t(1 << g.below(8));
        if (fail && how == 3)
            a.resize(g.range(1, a.size() - 1));
        std::vector<uint8_t> ff(g.range(0, 32), 0xff);
        a.insert(a.begin(), ff.begin(), ff.end());
        if (!fail) {
            if (step <= devs.size())
                want.push_back(devs[step - 1]);
            else
                finished = true;
        }
        port.Push(500000, a);
    };
    std::vector<ModbusExt::TScannedDevice> found;
    ModbusExt::TModbusRTUWithArbitrationTraits traits;
    bool error = false;
    try {
        ModbusExt::Scan(port, traits, deprecated ? ModbusExt::DEPRECATED : ModbusExt::ACTUAL, found);
    } catch (const std::exception& e) {
        error = true;
    }
    // silence at the start means that there are no such devices
    PBT_CHECK(error == (broken && !(silent && step == 1)), "scan: error " << error << ", broken " << broken << " at step " << step);
    PBT_CHECK(found.size() == want.size(), "scan: found " << found.size() << " devices of " << want.size());
    for (size_t i = 0; i < want.size(); ++i)
        PBT_CHECK(found[i].SlaveId == want[i].first && found[i].Sn == want[i].second,
                  "scan: device " << i << " is " << int(found[i].SlaveId) << " " << found[i].Sn << ", expected " << int(want[i].first) << " " << want[i].second);
    label("scan");
    if (!found.empty())
        nontrivial();
}

static void BySerialNumber(Gen& g)
{
    SimPort port("sn", 11ull * 1000000000ull / g.pick({115200, 9600}));
    port.Open();
    uint32_t sn = uint32_t(g.bits(32));
    bool deprecated = g.chance(1, 4);
    uint8_t cmd = deprecated ? 0x60 : 0x46;
    ModbusExt::TModbusTraits traits(std::make_unique<Modbus::TModbusRTUTraits>());
    traits.SetSn(sn);
    if (deprecated)
        traits.SetModbusExtCommand(ModbusExt::DEPRECATED);
    auto pdu = g.bytes(1, 40);
    auto answer = g.bytes(0, 100);
    std::vector<uint8_t> want;
    size_t scen = g.weighted({4, 2, 1, 1, 2, 1, 1});
    uint32_t asn = sn;
    port.OnWrite = [&](const std::vector<uint8_t>& q) {
        std::vector<uint8_t> w{0xfd, cmd, 8, uint8_t(sn >> 24), uint8_t(sn >> 16), uint8_t(sn >> 8), uint8_t(sn)};
        w.insert(w.end(), pdu.begin(), pdu.end());
        ref::appendCrc(w);
        PBT_CHECK(q == w, "request by serial number [" << hex(q) << "], expected [" << hex(w) << "]");
        std::vector<uint8_t> a{0xfd, cmd, 9};
        if (scen == 1)
            asn = sn ^ (1u << g.below(32));
        if (scen == 2)
            a[1] = uint8_t(cmd ^ (1 << g.below(7)));
        if (scen == 3)
            a[2] = uint8_t(9 ^ (1 << g.below(8)));
        ref::be16(a, asn >> 16);
        ref::be16(a, asn & 0xffff);
        a.insert(a.end(), answer.begin(), answer.end());
        if (scen == 4)
            a.resize(g.range(1, 6));
        ref::appendCrc(a);
        if (scen == 5)
            a[g.below(a.size())] ^= uint8_t(1 << g.below(8));
        if (scen == 6)
            return;
        port.Push(500000, a);
    };
    bool ok = false;
    Modbus::TReadResult r;
    std::string what;
    try {
        r = traits.Transaction(port, uint8_t(g.range(0, 255)), pdu, answer.size(), 50ms, 10ms);
        ok = true;
    } catch (const Modbus::TErrorBase& e) {
        what = e.what();
    } catch (const TResponseTimeoutException& e) {
        what = e.what();
    }
    PBT_CHECK(ok == (scen == 0), "answer by serial number, scenario " << scen << (ok ? " is taken" : " is refused: " + what));
    if (ok)
        PBT_CHECK(r.Pdu == answer, "answer by serial number [" << hex(r.Pdu) << "], expected [" << hex(answer) << "]");
    label("by serial number");
    nontrivial();
}

void property(Gen& g)
{
    sim::resetClock();
    switch (g.weighted({8, 1, 1})) {
        case 1:
            Scan(g);
            return;
        case 2:
            BySerialNumber(g);
            return;
        default:
            History(g);
    }
}
