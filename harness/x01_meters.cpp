// Meters, relays and sensors with other protocols than Modbus (README "Протоколы"): the real drivers, created from the
// configuration, against simulators of the devices that damage, lose, delay or replace answers.
#include "meters_iec.h"
#include "templates_map.h"

const char* PROPERTY_ID = "X01";
const char* NONTRIVIAL_RULE = "a register got a value from a clean answer after a faulty exchange of the same device";

using pbt::label;
using pbt::labelIf;
using namespace std::chrono;

namespace
{
    struct Reg
    {
        Chan C;
        PRegister R;
        bool HasValue = false, Error = false, Known = true;
        bool AnyValue = false; // an answer that broke off may have left a new value under the error
        Val V;
    };

    std::unique_ptr<Meter> Make(pbt::Gen& g, SimPort& p)
    {
        switch (g.below(13)) {
            case 0:
                label("mercury200");
                return std::make_unique<Mercury200>(g, p);
            case 1:
                label("mercury230");
                return std::make_unique<Mercury230>(g, p);
            case 2:
                label("milur");
                return std::make_unique<Milur>(g, p);
            case 3:
                label("energomera_ce");
                return std::make_unique<EnergomeraCe>(g, p);
            case 4:
                label("ivtm");
                return std::make_unique<Ivtm>(g, p);
            case 5:
                label("lls");
                return std::make_unique<Lls>(g, p);
            case 6:
                label("pulsar");
                return std::make_unique<Pulsar>(g, p);
            case 7:
                label("s2k");
                return std::make_unique<S2k>(g, p);
            case 8:
                label("uniel");
                return std::make_unique<Uniel>(g, p);
            case 9:
                label("iec_mode_c");
                return std::make_unique<IecModeC>(g, p);
            case 10:
                label("neva");
                return std::make_unique<Neva>(g, p);
            case 11:
                label("energomera_iec_mode_c");
                return std::make_unique<EnergomeraModeC>(g, p);
            default:
                label("energomera_iec");
                return std::make_unique<EnergomeraFast>(g, p);
        }
    }

    template<class F> bool Guard(const char* what, F f)
    {
        try {
            f();
            return true;
        } catch (const TSerialDeviceException&) {
            return false;
        } catch (const Abandon&) {
            throw;
        } catch (const pbt::Violation&) {
            throw;
        } catch (const std::exception& e) {
            PBT_FAIL(what << ": " << typeid(e).name() << " would end the service: " << e.what());
        }
    }

    void Check(Reg& r, const std::string& what)
    {
        if (!r.Known)
            return;
        PBT_CHECK(r.R->GetErrorState().test(TRegister::ReadError) == r.Error, what << ": " << r.C.Str() << (r.Error ? ": error is not reported" : ": false error"));
        if (r.HasValue && !r.AnyValue) {
            auto text = ConvertFromRawValue(*r.R->GetConfig(), r.R->GetValue());
            PBT_CHECK(r.V.Is(text), what << ": " << r.C.Str() << ": value is " << text << ", expected " << r.V.Str());
        }
    }

    void Run(pbt::Gen& g)
    {
        static TSerialDeviceFactory* factory = [] {
            auto f = new TSerialDeviceFactory();
            RegisterProtocols(*f);
            return f;
        }();
        static TTemplateMap templates;
        sim::resetClock();
        auto port = std::make_shared<SimPort>("sim", g.pick<uint64_t>({1145833, 572916, 95486, 0}));
        auto meter = Make(g, *port);
        auto& m = *meter;
        port->OnWrite = [&](const Bytes& q) { m.OnWrite(q); };
        size_t n = g.size(1, 12);
        for (size_t i = 0; i < n; ++i)
            m.AddChannel();
        if (m.Chans.empty())
            throw Abandon();
        m.Config["frame_timeout_ms"] = int(g.pick({20, 50, 5, 0}));
        m.Config["response_timeout_ms"] = int(g.pick({500, 100}));
        for (auto& c: m.Chans)
            m.Config["channels"].append(c.J);
        if (g.replaying())
            g.note(m.Config.toStyledString());
        TSerialDeviceFactory::TCreateDeviceParams params;
        PSerialDeviceWithChannels dwc;
        try {
            dwc = factory->CreateDevice(m.Config, params, templates);
        } catch (const std::exception& e) {
            PBT_FAIL("device isn't created: " << e.what());
        }
        auto dev = dwc->Device;
        PBT_EQ(dwc->Channels.size(), m.Chans.size(), "channels");
        std::vector<Reg> regs;
        for (size_t i = 0; i < m.Chans.size(); ++i) {
            PBT_EQ(dwc->Channels[i]->Registers.size(), size_t(1), "registers of a channel");
            Reg r;
            r.C = m.Chans[i];
            r.R = dwc->Channels[i]->Registers[0];
            regs.push_back(r);
        }
        port->Open();
        auto* iec = dynamic_cast<IecMeter*>(meter.get());
        auto* fast = dynamic_cast<EnergomeraFast*>(meter.get());
        auto* s2k = dynamic_cast<S2k*>(meter.get());
        bool prepared = false, faulty = false, good = false;
        int faults = g.pick({100, 30, 300, 0, 1000});
        size_t steps = g.size(1, 8);
        for (size_t step = 0; step < steps + 2; ++step) {
            bool last = step >= steps; // without faults
            m.FaultOf1000 = last ? 0 : g.chance(1, 3) ? 0 : faults;
            m.DelayNs = int64_t(g.pick({2000000, 20000000, 80000000}));
            m.Mutate();
            if (last)
                m.Late.clear();
            std::string what = "step " + std::to_string(step);
            g.note(what);
            auto finish = [&] {
                m.Collect();
                for (auto& e: m.Log)
                    faulty = faulty || !e.Fault.empty();
            };
            auto settle = [&] {
                sim::advance(milliseconds(300));
                if (last || !m.SkipsNoise)
                    port->Rx.clear();
            };
            if (!prepared || iec) {
                m.Log.clear();
                m.BeginCycle();
                bool ok = Guard("Prepare", [&] { dev->Prepare(*port); });
                finish();
                // a meter whose session was left open by a lost end answers only after it forgot it
                bool allClean = true;
                for (auto& e: m.Log)
                    allClean = allClean && e.Fault.empty();
                if (iec && !fast) {
                    if (ok)
                        PBT_CHECK(iec->PortBaud == 9600 || !allClean, what << ": speed after opening a session is " << iec->PortBaud);
                    if (allClean) {
                        PBT_CHECK(ok, what << ": session isn't opened without faults");
                        PBT_CHECK(iec->State == (iec->Password.empty() ? IecMeter::Prog : IecMeter::Auth), what << ": the meter hasn't got an open session");
                    }
                    if (!ok) {
                        label("session isn't opened");
                        PBT_CHECK(!m.Log.empty() && (m.Log.back().Key == "end"), what << ": a failed session isn't ended");
                        PBT_CHECK(!iec->Applied, what << ": other devices would be polled with the settings of the meter");
                        settle();
                        continue;
                    }
                } else
                    PBT_CHECK(ok, what << ": Prepare failed");
                prepared = true;
                settle();
            }
            // --- commands
            for (auto& r: regs) {
                if (!r.C.Writable || !g.chance(1, 3))
                    continue;
                unsigned v = r.C.Type == "relay" ? unsigned(g.below(2)) : g.byte();
                m.Log.clear();
                g.note("write " + r.C.Str() + " " + std::to_string(v));
                bool ok = Guard("WriteRegister", [&] { dev->WriteRegister(*port, r.R, TRegisterValue{v}); });
                finish();
                PBT_EQ(m.Log.size(), size_t(1), what << ": requests of a command");
                auto& e = m.Log[0];
                std::string want;
                if (s2k)
                    want = "15 " + std::to_string(r.C.Id) + " " + (v ? "1" : "2");
                else if (r.C.Type == "brightness")
                    want = "A " + Hex(r.C.Id >> 8, 2) + " " + Hex(v, 2);
                else
                    want = "6 " + Hex(r.C.Id, 2) + " " + Hex(r.C.Type == "relay" && v ? 255 : v, 2);
                PBT_EQ(e.Key, want, what << ": command");
                auto p = m.Accept(e);
                PBT_CHECK(ok == !!p, what << ": command " << r.C.Str() << ", answer " << pbt::hex(e.Got) << (ok ? ": false success" : ": false error"));
                if (p && s2k)
                    s2k->State[r.C.Id] = (*p)[0];
                label(ok ? "command" : "failed command");
                settle();
            }
            // --- reading
            std::vector<Reg*> order;
            for (auto& r: regs)
                if (last || !g.chance(1, 5))
                    order.push_back(&r);
            if (g.flip())
                std::stable_sort(order.begin(), order.end(), [](const Reg* a, const Reg* b) { return a->C.Key < b->C.Key; });
            for (size_t next = 0; next < order.size();) {
                auto range = dev->CreateRegisterRange();
                std::vector<Reg*> in;
                while (next < order.size() && range->Add(*port, order[next]->R, milliseconds::max()))
                    in.push_back(order[next++]);
                if (in.empty()) {
                    PBT_CHECK(order[next]->R->GetAvailable() == TRegisterAvailability::UNAVAILABLE, what << ": no progress");
                    ++next;
                    continue;
                }
                std::vector<bool> skipped;
                size_t asked = 0;
                for (auto* r: in) {
                    skipped.push_back(r->R->GetAvailable() == TRegisterAvailability::UNAVAILABLE);
                    asked += !skipped.back();
                }
                if (m.SkipsNoise && !last && g.chance(1, 6)) {
                    port->Push(-1, g.chance(1, 3) && !m.Log.empty() && !m.Log.back().Got.empty() ? m.Log.back().Got : g.bytes(1, 20));
                    label("noise before a request");
                    port->Rx.back().AtNs = sim::nowNs();
                }
                m.Log.clear();
                m.Cache.clear();
                if (!range->RegisterList().empty())
                    Guard("ReadRegisterRange", [&] { dev->ReadRegisterRange(*port, range); });
                finish();
                if (fast) {
                    PBT_CHECK(m.Log.size() == (asked ? 1 : 0), what << ": " << m.Log.size() << " requests of a group");
                    if (asked) {
                        auto values = fast->Decode(m.Log[0]);
                        PBT_CHECK(values || !m.Log[0].Clean, "harness: clean answer isn't accepted: " << pbt::hex(m.Log[0].Got));
                        for (size_t i = 0; i < in.size(); ++i) {
                            if (skipped[i])
                                continue;
                            auto& r = *in[i];
                            r.Error = true;
                            r.AnyValue = r.AnyValue || !values;
                            if (!values)
                                continue;
                            auto it = values->find(r.C.Id);
                            PBT_CHECK(it != values->end(), what << ": " << r.C.Str() << " isn't requested");
                            if (it->second[0] == 'E') {
                                bool gone = it->second == "E12" || it->second == "E17";
                                if (gone && r.R->GetAvailable() != TRegisterAvailability::UNAVAILABLE)
                                    PBT_CHECK(r.HasValue || r.AnyValue, what << ": unsupported " << r.C.Str() << " is still polled");
                                if (!gone)
                                    PBT_CHECK(r.R->GetAvailable() != TRegisterAvailability::UNAVAILABLE, what << ": " << r.C.Str() << " isn't polled after an error");
                                continue;
                            }
                            r.Error = false;
                            r.AnyValue = false;
                            r.HasValue = true;
                            r.V = Val::D(IecMeter::ToDouble(it->second), 1e-14);
                            good = good || (faulty && m.Log[0].Clean);
                        }
                    }
                } else {
                    Cursor cur(m.Log);
                    for (size_t i = 0; i < in.size(); ++i) {
                        auto& r = *in[i];
                        if (skipped[i])
                            continue;
                        bool permanent = false;
                        size_t from = cur.At;
                        auto v = m.Walk(r.C, cur, permanent);
                        bool clean = true;
                        for (size_t k = from; k < cur.At; ++k)
                            clean = clean && m.Log[k].Clean;
                        if (v) {
                            r.V = *v;
                            r.HasValue = true;
                            r.Error = false;
                            good = good || (faulty && clean);
                        } else
                            r.Error = true;
                        PBT_CHECK((r.R->GetAvailable() == TRegisterAvailability::UNAVAILABLE) == permanent, what << ": " << r.C.Str() << (permanent ? ": is still polled" : ": isn't polled any more"));
                        if (permanent)
                            label("unsupported");
                    }
                    PBT_EQ(cur.At, m.Log.size(), what << ": requests for " << in[0]->C.Str());
                }
                for (auto* r: in)
                    Check(*r, what);
                settle();
            }
            for (auto& r: regs)
                Check(r, what + " (others)");
            if (iec) {
                m.Log.clear();
                Guard("EndSession", [&] { dev->EndSession(*port); });
                PBT_CHECK(!iec->Applied, what << ": port settings aren't restored");
                if (!fast) {
                    PBT_CHECK(m.Log.size() == 1 && m.Log[0].Key == "end", what << ": session isn't ended");
                    PBT_CHECK(iec->State == IecMeter::Idle, what << ": the meter is still in a session");
                }
                settle();
            }
        }
        if (good)
            pbt::nontrivial();
        labelIf(faulty, "with faults");
        if (pbt::wantSample())
            pbt::sample(m.Config["protocol"].asString() + " " + m.Config["slave_id"].asString() + ": " + regs[0].C.Str() + " +" + std::to_string(regs.size() - 1));
    }
}

void property(pbt::Gen& g)
{
    try {
        Run(g);
    } catch (const Abandon&) {
        label("left the domain");
    }
}
