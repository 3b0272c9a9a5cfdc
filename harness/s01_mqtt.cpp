// S01: MQTT controls show what the registers hold, and a value written to an "on" topic is sent to the registers.
//
// One case: the real port driver with up to 2 Modbus devices in virtual time, its MQTT side replaced by a recorder.
// Registers are far apart, so every exchange on the wire is one read or write of one register.
#include "serial_port_driver.h"
#include "world.h"
#include <wblib/wbmqtt.h>
using namespace pbt;
using std::chrono::milliseconds;
using WBMQTT::TPublishParameters;

const char* PROPERTY_ID = "S01";
const char* NONTRIVIAL_RULE =
    "one case = a port driver with its devices and controls and a history of value changes, failures, commands and device restarts. Non-trivial: at "
    "least three values were published, and an error was published, a value was republished, a zero was withheld or a command was executed";

namespace
{
    const int64_t MS = 1000000;
    struct Channel
    {
        std::string Id, Type, On, Off, Units, Title;
        int Dev = 0;
        bool ReadOnly = false, Hidden = false, Counter = false;
        double Min = NAN, Max = NAN;
        std::vector<size_t> Regs;
        // model
        bool ZeroWithheld = false; // the next zero of a press counter is not published
        std::string Cached, Shown, CachedError;
        bool EverShown = false, Touched = false;
        int64_t ShownAt = -1;
    };
    struct Model
    {
        size_t Chan;
        bool Known = false;
        std::string Text;
        bool Pending = false;
        uint64_t Command = 0;
        std::string CommandText; // of a string register
    };
}

void property(Gen& g)
{
    World w(95486);
    w.OpenClose.ReopenTimeout = milliseconds(1000);
    size_t nDev = 1 + g.below(2);
    TPublishParameters policy;
    int unchanged = g.pick({-1, 0, 5, 60});
    policy.Set(unchanged);
    g.note("max_unchanged_interval " + std::to_string(unchanged));
    std::vector<Channel> chans;
    std::vector<Model> regs;
    auto portConfig = std::make_shared<TPortConfig>();
    portConfig->Port = w.Port;
    portConfig->OpenCloseSettings = w.OpenClose;
    for (size_t i = 0; i < nDev; ++i) {
        auto& d = w.AddDevice(unsigned(1 + i * 7), g.bits());
        auto& c = *d.Config;
        c.Name = g.pick({std::string("Dev"), std::string("Устройство")}) + std::to_string(i);
        c.FrameTimeout = milliseconds(2);
        c.ResponseTimeout = milliseconds(g.range(10, 100));
        c.DeviceTimeout = milliseconds(g.pick({0, 300, 3000}));
        c.DeviceMaxFailCycles = g.pick({1, 2, 0, -1});
        c.MaxWriteFailTime = std::chrono::seconds(600);
        d.Slave.AnswerNs = int64_t(g.range(200000, uint64_t(c.ResponseTimeout.count()) * MS / 2));
        w.CreateDevice(d);
        auto dc = std::make_shared<TSerialDeviceWithChannels>();
        dc->Device = d.Device;
        unsigned addr = 0;
        for (size_t k = 0, n = 1 + g.below(4); k < n; ++k) {
            Channel ch;
            ch.Dev = int(i);
            ch.Id = "c" + std::to_string(k);
            ch.Type = g.pick({std::string("value"), std::string("switch"), std::string("text"), std::string("pushbutton"), std::string("range"), std::string("dimmer")});
            ch.Counter = ch.Type == "value" && g.chance(1, 2);
            ch.ReadOnly = ch.Counter || g.chance(1, 4);
            if (ch.Type == "pushbutton")
                ch.ReadOnly = false;
            bool writeOnly = ch.Type == "pushbutton" || (!ch.ReadOnly && g.chance(1, 6));
            size_t n2 = ch.Type == "value" && !ch.Counter && g.chance(1, 3) ? 2 + g.below(2) : 1;
            std::vector<PRegister> rr;
            std::string descr;
            for (size_t m = 0; m < n2; ++m) {
                RegSpec s;
                s.Type = ch.Counter ? Modbus::REG_INPUT : ch.ReadOnly ? g.pick({Modbus::REG_HOLDING, Modbus::REG_INPUT}) : Modbus::REG_HOLDING;
                if (ch.Type == "switch" && g.chance(1, 2))
                    s.Type = ch.ReadOnly ? Modbus::REG_DISCRETE : Modbus::REG_COIL;
                s.Addr = addr;
                addr += 40;
                s.Format = s.IsBit() ? U8 : g.pick({U16, S16, U32});
                if (ch.Counter)
                    s.Format = U16;
                if (ch.Type == "text" && g.chance(1, 2)) {
                    s.Format = RegisterFormat::String8;
                    s.Width = 3;
                }
                s.WriteOnly = writeOnly;
                w.AddRegister(int(i), s, g.chance(1, 4) ? int64_t(g.range(50, 2000)) : 0, 0);
                auto& r = w.Regs.back();
                auto config = r.R->GetConfig();
                if (ch.Counter)
                    config->TypeName = "press_counter";
                if (ch.ReadOnly)
                    config->AccessType = TRegisterConfig::EAccessType::READ_ONLY;
                if (!s.IsBit() && !s.IsString() && !ch.Counter) {
                    if (g.chance(1, 5))
                        config->ErrorValue = TRegisterValue(uint64_t(3));
                    if (g.chance(1, 5))
                        config->UnsupportedValue = TRegisterValue(uint64_t(5));
                }
                ch.Regs.push_back(w.Regs.size() - 1);
                rr.push_back(r.R);
                Model m0;
                m0.Chan = chans.size();
                regs.push_back(m0);
                descr += " " + s.Str() + (config->ErrorValue ? " error_value 3" : "") + (config->UnsupportedValue ? " unsupported_value 5" : "");
            }
            if (n2 == 1 && !w.Regs.back().S.IsString()) {
                bool bit = w.Regs.back().S.IsBit();
                if (g.chance(1, 4))
                    ch.On = bit ? "1" : g.pick({std::string("1"), std::string("101"), std::string("255"), std::string("0"), std::string("2")});
                if (g.chance(1, 4))
                    ch.Off = bit ? "0" : g.pick({std::string("0"), std::string("7"), std::string("1")});
                if (ch.On == ch.Off)
                    ch.Off.clear();
            }
            auto cc = std::make_shared<TDeviceChannelConfig>(ch.Type, c.Id, int(k + 1), ch.ReadOnly, ch.Id, rr);
            cc->OnValue = ch.On;
            cc->OffValue = ch.Off;
            if (g.chance(1, 3))
                cc->Max = ch.Max = double(g.below(1000));
            if (g.chance(1, 3))
                cc->Min = ch.Min = -double(g.below(1000));
            cc->Units = ch.Units = g.pick({std::string(""), std::string("V")});
            cc->Hidden = ch.Hidden = g.chance(1, 4);
            ch.Title = g.pick({std::string(""), std::string("Канал")});
            if (!ch.Title.empty())
                cc->SetTitle(ch.Title, "ru");
            g.note("device " + std::to_string(d.Slave.Id) + " " + ch.Id + " " + ch.Type + (ch.ReadOnly ? " readonly" : "") + (ch.Counter ? " press counter" : "") + ":" + descr +
                   (ch.On.empty() ? "" : " on " + ch.On) + (ch.Off.empty() ? "" : " off " + ch.Off));
            dc->Channels.push_back(cc);
            chans.push_back(ch);
        }
        portConfig->AddDevice(dc);
    }
    FILE* trace = getenv("S01_TRACE") ? fopen(getenv("S01_TRACE"), "w") : nullptr; // for debugging
    auto now = [] { return sim::nowNs(); };
    auto log = [&](const std::string& s) {
        if (trace)
            fprintf(trace, "%lld us %s\n", (long long)(now() / 1000), s.c_str());
    };
    auto mqtt = std::make_shared<WBMQTT::TDeviceDriver>();
    mqtt->KeepPublications = false;
    mqtt->On<WBMQTT::TControlOnValueEvent>(TSerialPortDriver::HandleControlOnValueEvent);
    auto driver = std::make_shared<TSerialPortDriver>(mqtt, portConfig, policy, std::numeric_limits<size_t>::max());
    driver->SetUpDevices();
    // --- the controls are as configured
    for (size_t i = 0; i < nDev; ++i) {
        auto it = mqtt->Devices.find(w.Devices[i]->Config->Id);
        PBT_CHECK(it != mqtt->Devices.end(), "no MQTT device " << w.Devices[i]->Config->Id);
        PBT_EQ(it->second->Title, w.Devices[i]->Config->Name, "title of the MQTT device");
    }
    int order = 0, prevDev = -1;
    for (auto& ch: chans) {
        order = ch.Dev == prevDev ? order + 1 : 1;
        prevDev = ch.Dev;
        auto c = mqtt->Devices[w.Devices[ch.Dev]->Config->Id]->GetControl(ch.Id);
        PBT_CHECK(c, "no MQTT control " << ch.Id);
        auto& a = c->Args;
        PBT_EQ(a.Type, ch.Type, "type of " << ch.Id);
        PBT_EQ(a.Order, order, "order of " << ch.Id);
        PBT_EQ(a.Readonly, ch.ReadOnly, "readonly of " << ch.Id);
        PBT_EQ(a.Hidden, ch.Hidden, "hidden of " << ch.Id);
        PBT_EQ(a.Units, ch.Units, "units of " << ch.Id);
        PBT_EQ(a.Durable, ch.Counter, "a press counter is stored at once, others are not: " << ch.Id);
        PBT_EQ(a.HasMin, !std::isnan(ch.Min), "min of " << ch.Id);
        if (a.HasMin)
            PBT_EQ(a.Min, ch.Min, "min of " << ch.Id);
        bool range = ch.Type == "range" || ch.Type == "dimmer";
        PBT_EQ(a.HasMax, !std::isnan(ch.Max) || range, "max of " << ch.Id);
        if (a.HasMax)
            PBT_EQ(a.Max, std::isnan(ch.Max) ? 65535. : ch.Max, "max of " << ch.Id);
        if (!ch.Title.empty())
            PBT_EQ(a.Titles["ru"], ch.Title, "title of " << ch.Id);
    }
    auto name = [&](const Channel& c) { return "device " + std::to_string(w.Devices[c.Dev]->Slave.Id) + " " + c.Id; };
    auto control = [&](const Channel& c) { return mqtt->Devices[w.Devices[c.Dev]->Config->Id]->GetControl(c.Id); };
    auto errorText = [&](const Channel& c) {
        std::string t;
        const std::pair<TRegister::TError, char> e[] = {{TRegister::ReadError, 'r'}, {TRegister::WriteError, 'w'}, {TRegister::PollIntervalMissError, 'p'}};
        for (auto& x: e)
            for (auto k: c.Regs)
                if (w.Regs[k].R->GetErrorState().test(x.first)) {
                    t += x.second;
                    break;
                }
        return t;
    };
    auto toText = [&](const WReg& r, const TRegisterValue& v) -> std::string {
        if (r.S.IsString())
            return v.Get<std::string>();
        uint64_t n = v.Get<uint64_t>();
        return r.S.Format == S16 ? std::to_string(int16_t(n)) : std::to_string(n);
    };
    auto valueText = [&](const Channel& c) {
        std::string t;
        for (size_t k = 0; k < c.Regs.size(); ++k)
            t += (k ? ";" : "") + regs[c.Regs[k]].Text;
        if (c.Regs.size() == 1) {
            if (!c.On.empty() && t == c.On)
                return std::string("1");
            if (!c.Off.empty() && t == c.Off)
                return std::string("0");
        }
        return t;
    };
    // --- what is expected to be published
    int inflight = -1; // register
    bool inflightOk = false, inflightWrite = false;
    std::string inflightText;
    int expected = -1;          // channel which value must be published now
    bool expectedOptional = false;
    std::string expectedValue;
    unsigned published = 0, interesting = 0, written = 0;
    auto done = [&] { // nothing more of the previous event is published
        if (expected >= 0) {
            PBT_CHECK(expectedOptional, name(chans[size_t(expected)]) << ": the value " << expectedValue << " is not published");
            expected = -1;
        }
    };
    auto settle = [&] {
        if (inflight < 0)
            return;
        auto& r = w.Regs[size_t(inflight)];
        auto& m = regs[size_t(inflight)];
        auto& c = chans[m.Chan];
        inflight = -1;
        c.Touched = true;
        if (!inflightOk)
            return;
        m.Known = true;
        m.Text = inflightText;
        auto st = r.R->GetErrorState();
        if (!inflightWrite && (st.test(TRegister::ReadError) || st.test(TRegister::WriteError)))
            return; // not a valid value
        for (auto k: c.Regs)
            if (!regs[k].Known || w.Regs[k].R->GetAvailable() == TRegisterAvailability::UNKNOWN)
                return;
        auto text = valueText(c);
        if (c.Counter && c.ZeroWithheld && m.Text == "0") {
            label("zero of a press counter is withheld");
            ++interesting;
            c.Cached = text;
            return;
        }
        c.ZeroWithheld = false;
        bool all = policy.Policy == TPublishParameters::PublishAll || c.Type == "pushbutton";
        bool publish = all || text != c.Cached || (!c.EverShown && c.Cached.empty());
        expectedOptional = !all && !c.EverShown && text.empty(); // an empty text is the same as no value
        if (policy.Policy == TPublishParameters::PublishSomeUnchanged && !publish) {
            publish = errorText(c) != c.CachedError || c.ShownAt < 0 || now() - c.ShownAt >= unchanged * 1000 * MS;
            // the moment of publication is a bit later than the moment of the exchange
            if (publish && now() - c.ShownAt < unchanged * 1000 * MS + MS && errorText(c) == c.CachedError)
                expectedOptional = true;
            if (publish) {
                label("unchanged value is published again");
                ++interesting;
            }
        }
        if (publish) {
            expected = int(m.Chan);
            expectedValue = text;
        }
    };
    mqtt->OnPublish = [&](const WBMQTT::TShimPublication& p) {
        log("publish " + p.Device + "/" + p.Control + (p.HasValue ? " value " + p.Value : "") + (p.HasError ? " error '" + p.Error + "'" : ""));
        if (p.Control.empty())
            return; // device error is checked at the end of the cycle
        settle();
        size_t i = 0;
        for (; i < chans.size(); ++i)
            if (chans[i].Id == p.Control && w.Devices[chans[i].Dev]->Config->Id == p.Device)
                break;
        PBT_CHECK(i < chans.size(), "publication of an unknown control " << p.Device << "/" << p.Control);
        auto& c = chans[i];
        c.Touched = true;
        if (p.HasError)
            c.CachedError = p.Error;
        if (!p.HasValue) {
            if (!p.Error.empty()) {
                label("error is published");
                ++interesting;
            }
            return;
        }
        PBT_CHECK(expected == int(i), name(c) << ": the value " << p.Value << " is published for no reason");
        PBT_EQ(p.Value, expectedValue, name(c) << ": published value");
        PBT_CHECK(p.HasError, name(c) << ": the error is not published with the value");
        PBT_EQ(p.Error, errorText(c), name(c) << ": published error");
        expected = -1;
        c.Cached = c.Shown = p.Value;
        c.EverShown = true;
        c.ShownAt = now();
        ++published;
    };
    unsigned lossPct = 0, busyPct = 0;
    for (auto& d: w.Devices) {
        auto* raw = d.get();
        raw->Slave.OnRequest = [&, raw](const ModbusRequest& q) {
            settle();
            done();
            size_t i = 0;
            for (; i < w.Regs.size(); ++i) {
                auto& s = w.Regs[i].S;
                if (w.Devices[w.Regs[i].Dev].get() != raw)
                    continue;
                bool sameTable = q.IsWrite() ? s.IsBit() == (q.Fn == 5 || q.Fn == 15) : (s.Table() == ModbusSlave::COIL ? 1u : s.Table() == ModbusSlave::DISCRETE ? 2u : s.Table() == ModbusSlave::INPUT ? 4u : 3u) == q.Fn;
                if (sameTable && q.Addr >= s.Addr && q.Addr < s.Addr + s.Words())
                    break;
            }
            PBT_CHECK(i < w.Regs.size(), "a request to a register that is not configured: " << q.Str());
            Fault f = !raw->Online || (lossPct && g.below(100) < lossPct) ? Fault::Timeout : Fault::None;
            if (f == Fault::None && busyPct && g.below(100) < busyPct) {
                f = g.pick({Fault::Exception, Fault::BadCrc});
                raw->Slave.ExceptionCode = unsigned(g.pick({6, 4}));
            }
            auto& r = w.Regs[i];
            auto& m = regs[i];
            log(q.Str() + " fault " + std::to_string(int(f)));
            inflight = int(i);
            inflightOk = f == Fault::None;
            inflightWrite = q.IsWrite();
            if (q.IsWrite()) {
                uint64_t v = 0;
                if (q.Fn == 5)
                    v = q.Data[0] ? 1 : 0;
                else
                    for (auto b: q.Data)
                        v = v << 8 | b;
                PBT_CHECK(!chans[m.Chan].ReadOnly, name(chans[m.Chan]) << " is read-only but written");
                PBT_CHECK(m.Pending, name(chans[m.Chan]) << ": a write that was not commanded: " << q.Str());
                std::string written8;
                if (r.S.IsString()) {
                    for (auto b: q.Data)
                        if (b)
                            written8 += char(b);
                    PBT_EQ(written8, m.CommandText, name(chans[m.Chan]) << ": value of " << r.S.Str() << " that is written");
                } else
                    PBT_EQ(v, m.Command, name(chans[m.Chan]) << ": value of " << r.S.Str() << " that is written");
                if (inflightOk) {
                    m.Pending = false;
                    ++written;
                    ++interesting;
                    label("command is written");
                    inflightText = r.S.IsString() ? m.CommandText : toText(r, TRegisterValue(v));
                }
            } else {
                PBT_CHECK(!r.S.WriteOnly, name(chans[m.Chan]) << " is write-only but read");
                if (inflightOk)
                    inflightText = toText(r, r.S.Expected(raw->Slave));
            }
            return f;
        };
    }
    w.OnState = [&](WDevice& d) {
        if (d.Device->GetConnectionState() == TDeviceConnectionState::DISCONNECTED) {
            label("device is disconnected");
            for (auto& c: chans)
                if (w.Devices[c.Dev].get() == &d)
                    c.ZeroWithheld = true;
        }
    };
    sim::setTickNs(1000);
    auto cycle = [&] {
        driver->Cycle();
        settle();
        done();
        for (auto& d: w.Devices) {
            auto e = mqtt->Devices[d->Config->Id]->Error;
            PBT_EQ(e, d->Device->GetConnectionState() == TDeviceConnectionState::DISCONNECTED ? "r" : "", "error of the MQTT device " << d->Config->Id);
        }
        for (auto& c: chans) {
            bool known = c.Touched;
            for (auto k: c.Regs)
                known &= w.Regs[k].R->GetAvailable() != TRegisterAvailability::UNKNOWN;
            if (known)
                PBT_EQ(control(c)->GetError(), errorText(c), name(c) << ": error in MQTT");
            PBT_EQ(control(c)->GetRawValue(), c.Shown, name(c) << ": value in MQTT");
        }
    };
    auto command = [&](Channel& c) {
        std::vector<std::string> items;
        std::vector<uint64_t> raw;
        for (auto k: c.Regs) {
            auto& s = w.Regs[k].S;
            uint64_t v = 0;
            std::string t;
            if (s.IsString()) {
                size_t n = 1 + g.below(6);
                for (size_t j = 0; j < n; ++j)
                    t += char('a' + g.below(26));
            } else {
                v = s.IsBit() ? g.below(2) : g.chance(1, 2) ? g.below(9) : s.Format == U32 ? g.bits(32) : g.bits(16);
                t = toText(w.Regs[k], TRegisterValue(v));
                if (t == "1" && !c.On.empty())
                    v = std::stoull(c.On);
                else if (t == "0" && !c.Off.empty())
                    v = std::stoull(c.Off);
            }
            items.push_back(t);
            raw.push_back(v);
        }
        std::string text;
        for (size_t k = 0; k < items.size(); ++k)
            text += (k ? ";" : "") + items[k];
        bool bad = g.chance(1, 8);
        bool strings = w.Regs[c.Regs[0]].S.IsString();
        if (bad)
            text = g.chance(1, 2) && !strings ? "x" + text : text + ";1";
        log("on " + name(c) + " = " + text);
        bool taken = mqtt->Deliver(w.Devices[c.Dev]->Config->Id, c.Id, text);
        PBT_EQ(taken, !c.ReadOnly, name(c) << ": a command is accepted");
        if (!taken || bad)
            return;
        for (size_t k = 0; k < c.Regs.size(); ++k) {
            regs[c.Regs[k]].Pending = true;
            regs[c.Regs[k]].Command = raw[k];
            regs[c.Regs[k]].CommandText = items[k];
        }
    };
    size_t steps = g.size(1, 60);
    for (size_t step = 0; step < steps; ++step) {
        switch (g.weighted({12, 6, 6, 3, 1, 1, 1, 2})) {
            case 0:
                for (size_t k = 0, n = 1 + g.below(8); k < n; ++k)
                    cycle();
                break;
            case 1: { // a register changes
                auto& r = w.Regs[g.below(w.Regs.size())];
                auto& s = r.S;
                auto& sl = w.Devices[r.Dev]->Slave;
                for (unsigned k = 0; k < s.Words(); ++k)
                    sl.Set(s.Table(), s.Addr + k, s.IsBit() ? uint16_t(g.below(2)) : g.chance(1, 2) ? uint16_t(k + 1 < s.Words() ? 0 : g.below(9)) : uint16_t(g.bits(16)));
                if (s.IsString())
                    for (unsigned k = 0; k < s.Words(); ++k)
                        sl.Set(s.Table(), s.Addr + k, uint16_t((g.chance(1, 5) ? 0 : 'a' + g.below(3)) << 8 | (g.chance(1, 5) ? 0xff : 'a' + g.below(3))));
                break;
            }
            case 2:
                command(chans[g.below(chans.size())]);
                break;
            case 3: {
                auto& d = *w.Devices[g.below(nDev)];
                d.Online = !d.Online;
                log("device " + std::to_string(d.Slave.Id) + (d.Online ? " online" : " offline"));
                if (d.Online && g.chance(2, 3))
                    for (auto k: d.Regs)
                        if (chans[regs[k].Chan].Counter)
                            d.Slave.Set(ModbusSlave::INPUT, w.Regs[k].S.Addr, 0); // restart
                break;
            }
            case 4:
                lossPct = lossPct ? 0 : unsigned(g.range(5, 60));
                break;
            case 5:
                busyPct = busyPct ? 0 : unsigned(g.range(5, 60));
                break;
            case 6:
                w.Base->OpenFails = !w.Base->OpenFails;
                break;
            default:
                sim::advance(milliseconds(g.range(1, 20000)));
        }
    }
    if (published >= 3 && interesting)
        nontrivial();
    labelIf(written >= 2, "several commands written");
    if (wantSample())
        sample(std::to_string(chans.size()) + " controls, " + std::to_string(steps) + " steps, " + std::to_string(published) + " values published, " + std::to_string(written) + " commands");
}
