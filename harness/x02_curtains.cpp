// Curtain motors (README "Протоколы": somfy, dooya, windeco, a_ok): the real drivers, created from the configuration,
// against simulators of the motors that damage, lose or replace answers.
#include "curtains.h"
#include "templates_map.h"

const char* PROPERTY_ID = "X02";
const char* NONTRIVIAL_RULE = "a reading or a command succeeded after a faulty exchange of the same motor";

using pbt::label;
using pbt::labelIf;
using namespace std::chrono;

namespace
{
    struct Reg
    {
        Chan C;
        PRegister R;
        bool HasValue = false, Error = false;
        Val V;
    };

    std::unique_ptr<Curtain> Make(pbt::Gen& g, SimPort& p)
    {
        switch (g.below(4)) {
            case 0:
                label("windeco");
                return std::make_unique<WinDecoSim>(g, p);
            case 1:
                label("dooya");
                return std::make_unique<DooyaSim>(g, p);
            case 2:
                label("somfy");
                return std::make_unique<SomfySim>(g, p);
            default:
                label("a_ok");
                return std::make_unique<AokSim>(g, p);
        }
    }

    template<class F> bool Guard(const char* what, F f)
    {
        try {
            f();
            return true;
        } catch (const TSerialDeviceException&) {
            return false;
        } catch (const Abandon&) {
            throw;
        } catch (const pbt::Violation&) {
            throw;
        } catch (const std::exception& e) {
            PBT_FAIL(what << ": " << typeid(e).name() << " would end the service: " << e.what());
        }
    }

    void Check(Reg& r, const std::string& what)
    {
        PBT_CHECK(r.R->GetErrorState().test(TRegister::ReadError) == r.Error, what << ": " << r.C.Str() << (r.Error ? ": error is not reported" : ": false error"));
        if (r.HasValue) {
            auto text = ConvertFromRawValue(*r.R->GetConfig(), r.R->GetValue());
            PBT_CHECK(r.V.Is(text), what << ": " << r.C.Str() << ": value is " << text << ", expected " << r.V.Str());
        }
    }

    void Run(pbt::Gen& g)
    {
        static TSerialDeviceFactory* factory = [] {
            auto f = new TSerialDeviceFactory();
            RegisterProtocols(*f);
            return f;
        }();
        static TTemplateMap templates;
        sim::resetClock();
        auto port = std::make_shared<SimPort>("sim", g.pick<uint64_t>({1145833, 572916, 2291666, 0}));
        auto motor = Make(g, *port);
        auto& m = *motor;
        port->OnWrite = [&](const Bytes& q) { m.OnWrite(q); };
        size_t n = g.size(1, 8);
        for (size_t i = 0; i < n; ++i)
            m.AddChannel();
        m.Config["frame_timeout_ms"] = int(g.pick({20, 50, 5, 0}));
        m.Config["response_timeout_ms"] = int(g.pick({500, 100}));
        for (auto& c: m.Chans)
            m.Config["channels"].append(c.J);
        if (g.replaying())
            g.note(m.Config.toStyledString());
        TSerialDeviceFactory::TCreateDeviceParams params;
        PSerialDeviceWithChannels dwc;
        try {
            dwc = factory->CreateDevice(m.Config, params, templates);
        } catch (const std::exception& e) {
            PBT_FAIL("device isn't created: " << e.what());
        }
        auto dev = dwc->Device;
        PBT_EQ(dwc->Channels.size(), m.Chans.size(), "channels");
        std::vector<Reg> regs;
        for (size_t i = 0; i < m.Chans.size(); ++i) {
            PBT_EQ(dwc->Channels[i]->Registers.size(), size_t(1), "registers of a channel");
            Reg r;
            r.C = m.Chans[i];
            r.R = dwc->Channels[i]->Registers[0];
            if (r.C.Key.empty())
                PBT_CHECK(r.R->GetConfig()->AccessType == TRegisterConfig::EAccessType::WRITE_ONLY, r.C.Str() << " is polled");
            regs.push_back(r);
        }
        port->Open();
        bool faulty = false, good = false;
        int faults = g.pick({100, 30, 300, 0, 1000});
        size_t steps = g.size(1, 12);
        bool ok = Guard("Prepare", [&] { dev->Prepare(*port); });
        PBT_CHECK(ok, "Prepare failed");
        for (size_t step = 0; step < steps + 2; ++step) {
            bool last = step >= steps; // without faults
            m.FaultOf1000 = last ? 0 : g.chance(1, 3) ? 0 : faults;
            m.DelayNs = int64_t(g.pick({2000000, 20000000, 80000000}));
            if (g.flip())
                m.Mutate();
            std::string what = "step " + std::to_string(step);
            g.note(what);
            auto finish = [&] {
                m.Collect();
                for (auto& e: m.Log)
                    faulty = faulty || !e.Fault.empty();
            };
            auto settle = [&] {
                sim::advance(milliseconds(300));
                if (!m.Log.empty() && g.chance(1, 8)) {
                    // late answers or noise come before a request
                    port->Push(-1, g.chance(1, 3) && !m.Log.back().Got.empty() ? m.Log.back().Got : g.bytes(1, 20));
                    port->Rx.back().AtNs = sim::nowNs();
                    label("noise before a request");
                }
            };
            bool write = !last && g.flip();
            if (write) {
                auto& r = g.pick(regs);
                if (!r.C.Writable)
                    continue;
                auto v = m.WriteValue(r.C);
                if (!v)
                    continue;
                m.Log.clear();
                g.note("write " + r.C.Str() + " " + std::to_string(*v));
                bool ok = Guard("WriteRegister", [&] { dev->WriteRegister(*port, r.R, TRegisterValue{*v}); });
                finish();
                Cursor cur(m.Log);
                bool want = m.Write(r.C, *v, cur);
                PBT_EQ(cur.At, m.Log.size(), what << ": requests of a command " << r.C.Str());
                PBT_CHECK(ok == want, what << ": command " << r.C.Str() << " = " << *v << ", answer " << (m.Log.empty() ? "" : pbt::hex(m.Log.back().Got)) << (ok ? ": false success" : ": false error"));
                label(ok ? "command" : "failed command");
                good = good || (faulty && ok);
                settle();
                for (auto& r: regs)
                    Check(r, what + " (after a command)");
                continue;
            }
            std::vector<Reg*> order;
            for (auto& r: regs)
                if (!r.C.Key.empty() && (last || !g.chance(1, 5)))
                    order.push_back(&r);
            if (g.flip())
                std::stable_sort(order.begin(), order.end(), [](const Reg* a, const Reg* b) { return a->C.Key < b->C.Key; });
            for (size_t next = 0; next < order.size();) {
                auto range = dev->CreateRegisterRange();
                std::vector<Reg*> in;
                while (next < order.size() && range->Add(*port, order[next]->R, milliseconds::max()))
                    in.push_back(order[next++]);
                PBT_CHECK(!in.empty(), what << ": no progress");
                m.Log.clear();
                m.Cache.clear();
                Guard("ReadRegisterRange", [&] { dev->ReadRegisterRange(*port, range); });
                finish();
                Cursor cur(m.Log);
                for (auto* r: in) {
                    bool permanent = false;
                    size_t from = cur.At;
                    auto v = m.Walk(r->C, cur, permanent);
                    bool clean = true;
                    for (size_t k = from; k < cur.At; ++k)
                        clean = clean && m.Log[k].Fault.empty();
                    r->Error = !v;
                    if (v) {
                        r->V = *v;
                        r->HasValue = true;
                        good = good || (faulty && clean);
                    }
                    PBT_CHECK(r->R->GetAvailable() != TRegisterAvailability::UNAVAILABLE, what << ": " << r->C.Str() << " isn't polled any more");
                }
                PBT_EQ(cur.At, m.Log.size(), what << ": requests for " << in[0]->C.Str());
                for (auto* r: in)
                    Check(*r, what);
                settle();
            }
            for (auto& r: regs)
                Check(r, what + " (others)");
        }
        if (good)
            pbt::nontrivial();
        labelIf(faulty, "with faults");
        if (pbt::wantSample())
            pbt::sample(m.Config["protocol"].asString() + " " + m.Config["slave_id"].asString() + ": " + regs[0].C.Str() + " +" + std::to_string(regs.size() - 1));
    }
}

void property(pbt::Gen& g)
{
    try {
        Run(g);
    } catch (const Abandon&) {
        label("left the domain");
    }
}
