// Q02: requests of other programs to devices (device/Load, device/Set, device/LoadConfig, device/SetPoll) by their templates.
//
// One case: one or two ports with devices loaded by the real LoadConfig from a generated configuration and generated
// templates, devices on the line that are not configured, and a history of requests, polling cycles, devices going
// off and on, losses and lapses of time.
#include "confed_device_schemas_map.h"
#include "confed_protocol_schemas_map.h"
#include "rpcworld.h"
#include "templates_map.h"
#include <cmath>
#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace pbt;
using std::chrono::milliseconds;
namespace fs = std::filesystem;
using J = Json::Value;

const char* PROPERTY_ID = "Q02";
const char* NONTRIVIAL_RULE =
    "one case = configured and other devices with generated templates and a history of device requests and polling. Non-trivial: at least one request was "
    "answered with data or written, and the device was lost, suspended, had registers it does not support, or an exchange of a request failed";

namespace
{
    const int64_t MS = 1000000;
    using Bytes = std::vector<uint8_t>;

    J Load(const std::string& name)
    {
        return WBMQTT::JSON::Parse(repoDir() + "/" + name);
    }
    struct TStatic
    {
        J Common = Load("wb-mqtt-serial-confed-common.schema.json");
        J Schema = LoadConfigTemplatesSchema(repoDir() + "/wb-mqtt-serial-device-template.schema.json", Common);
        J Ports = Load("wb-mqtt-serial-ports.schema.json");
        TSerialDeviceFactory Factory;
        TProtocolConfedSchemasMap ProtocolSchemas{repoDir() + "/protocols", Common};
        TStatic()
        {
            RegisterProtocols(Factory);
        }
    };
    TStatic& Static()
    {
        static TStatic s;
        return s;
    }

    // a channel or a parameter of a template
    struct Item
    {
        std::string Id;
        RegSpec S;
        double Scale = 1;
        bool ReadOnly = false, NoRead = false;
        std::string Fw;
        int CondParam = -1, CondValue = 0; // a condition on a parameter
        bool CondNot = false;
        bool Enum = false, Range = false;
        int Min = 0, Max = 0;
        int Period = 0; // ms, of the high priority channels

        bool Refused() const // can't be written according to the template
        {
            return ReadOnly;
        }
        std::string Condition() const
        {
            return CondParam < 0 ? "" : "p" + std::to_string(CondParam) + (CondNot ? "!=" : "==") + std::to_string(CondValue);
        }
        int64_t Signed(uint64_t raw) const
        {
            switch (S.Format) {
                case S16:
                    return int16_t(raw);
                case S32:
                    return int32_t(raw);
                default:
                    return int64_t(raw);
            }
        }
        double Value(const ModbusSlave& s) const
        {
            return double(Signed(S.Number(s))) * Scale;
        }
        // a value the device answers with when continuous read is on and it has no such register may be taken for a real one
        bool FillerIsValid() const
        {
            int u = S.Format == S16 ? -2 : 0xFFFE;
            if (S.Format != U16 && S.Format != S16)
                return (Enum || Range) && Min <= u && u <= Max;
            if (Enum || Range)
                return Min <= u && u <= Max;
            return false;
        }
        std::vector<std::pair<unsigned, uint16_t>> Words(uint64_t raw) const // to write
        {
            std::vector<std::pair<unsigned, uint16_t>> r;
            unsigned n = S.IsBit() ? 1 : S.Words();
            for (unsigned i = 0; i < n; ++i)
                r.push_back({S.WAddr() + i, S.IsBit() ? uint16_t(raw != 0) : uint16_t(raw >> (16 * (n - 1 - i)))});
            return r;
        }
    };
    struct Template
    {
        std::string Type, Signature, MinFw;
        bool Wb = false, Cont = false, ParamsArray = false;
        std::vector<Item> Channels, Params;
        std::vector<WSetup> Setup;

        static void Common(J& j, const Item& i)
        {
            static const char* T[] = {"holding", "input", "coil", "discrete", "holding_single", "holding_multi"};
            j["reg_type"] = T[i.S.Type];
            if (!i.NoRead)
                j["address"] = i.S.Addr;
            if (i.S.WriteAddr >= 0)
                j["write_address"] = i.S.WriteAddr;
            if (!i.S.IsBit())
                {
                std::string f = RegisterFormatName(i.S.Format);
                for (auto& c: f)
                    c = char(tolower(c));
                j["format"] = f;
            }
            if (i.Scale != 1)
                j["scale"] = i.Scale;
            if (i.ReadOnly)
                j["readonly"] = true;
            if (!i.Fw.empty())
                j["fw"] = i.Fw;
            if (i.CondParam >= 0)
                j["condition"] = i.Condition();
        }
        J Json() const
        {
            J t;
            t["device_type"] = Type;
            t["group"] = "g";
            t["title"] = Type;
            if (Wb && !Signature.empty()) {
                J h;
                h["signature"] = Signature;
                h["fw"] = MinFw;
                t["hw"].append(h);
            }
            auto& d = t["device"];
            d["name"] = Type;
            d["id"] = "t";
            if (Cont)
                d["enable_wb_continuous_read"] = true;
            d["response_timeout_ms"] = 30;
            d["channels"] = J(::Json::arrayValue);
            for (auto& c: Channels) {
                J j;
                j["name"] = c.Id;
                Common(j, c);
                j["type"] = c.S.IsBit() ? "switch" : "value";
                if (c.Period)
                    j["read_period_ms"] = c.Period;
                d["channels"].append(j);
            }
            for (auto& p: Params) {
                J j;
                j["title"] = p.Id;
                Common(j, p);
                if (p.Enum)
                    for (int v = p.Min; v <= p.Max; ++v)
                        j["enum"].append(v);
                if (p.Range) {
                    j["min"] = p.Min;
                    j["max"] = p.Max;
                }
                if (ParamsArray) {
                    j["id"] = p.Id;
                    d["parameters"].append(j);
                } else {
                    d["parameters"][p.Id] = j;
                }
            }
            for (auto& s: Setup) {
                J j;
                j["title"] = "s" + std::to_string(s.Addr);
                j["reg_type"] = "holding";
                j["address"] = s.Addr;
                j["value"] = s.Value;
                d["setup"].append(j);
            }
            return t;
        }
    };
    struct Dev
    {
        int Port = 0;
        const Template* T = nullptr;
        bool InConfig = false, Online = true;
        std::string Id, Model, Fw;
        ModbusSlave Slave, AtAnswer; // now and when the last request was answered
        std::map<std::string, int> Config; // values of parameters in the configuration
        std::set<std::string> Changed;     // of them written by device/Set
        std::set<unsigned> Bad[4];         // registers it does not have
        PSerialDevice Device;
        // what is known to the driver
        bool FwKnown = true;
        bool SetUp = false, Suspended = false;
        int64_t SuspendedTill = 0;
        std::set<unsigned> Written;
        bool Cached = false;
        std::map<std::string, J> Cache;
        unsigned PollReads = 0;
        bool FillersUnchecked = false; // a request could not switch continuous read off to check fillers
        bool Ever[2] = {false, false}, Polled[2] = {false, false}; // registers of low and high priority

        std::string Str() const
        {
            return "port " + std::to_string(Port) + " slave " + std::to_string(Slave.Id) + " " + T->Type + (InConfig ? "" : " (not configured)");
        }
        bool Missing(const Item& i) const
        {
            for (unsigned k = 0; k < (i.S.IsBit() ? 1 : i.S.Words()); ++k)
                if (Bad[i.S.Table()].count(i.S.Addr + k))
                    return true;
            return false;
        }
        bool ContinuousNow() const
        {
            return Slave.Get(ModbusSlave::HOLDING, 114) == 1;
        }
        void Text(unsigned addr, unsigned len, const std::string& s)
        {
            for (unsigned i = 0; i < len; ++i)
                Slave.Set(ModbusSlave::HOLDING, addr + i, i < s.size() ? uint16_t(uint8_t(s[i])) : 0);
        }
        void Reset()
        {
            for (auto& c: Slave.Cells)
                c.clear();
            Text(200, 20, Model);
            Text(250, 16, Fw);
            Slave.Set(ModbusSlave::HOLDING, 114, 0);
            for (auto& p: T->Params) // small values, so that conditions hold now and then
                for (auto& w: p.Words(uint64_t(p.Min + int((Slave.Seed >> (p.S.Addr % 50)) % uint64_t(p.Max - p.Min + 1)))))
                    Slave.Set(p.S.Table(), p.S.Addr + (w.first - p.S.WAddr()), w.second);
            for (int t = 0; t < 4; ++t)
                for (auto a: Bad[t])
                    Slave.Set(ModbusSlave::Table(t), a, 0xFFFE);
        }
    };
    bool Newer(const std::string& a, const std::string& b) // 1.x.y
    {
        int x[3] = {0, 0, 0}, y[3] = {0, 0, 0};
        sscanf(a.c_str(), "%d.%d.%d", x, x + 1, x + 2);
        sscanf(b.c_str(), "%d.%d.%d", y, y + 1, y + 2);
        return std::lexicographical_compare(y, y + 3, x, x + 3);
    }
    bool Near(const J& v, double e)
    {
        return v.isNumeric() && std::fabs(v.asDouble() - e) <= 1e-6 * std::max(1.0, std::fabs(e));
    }
    struct TDir
    {
        std::string Path = scratch() + "/q02_" + std::to_string(getpid());
        TDir()
        {
            fs::remove_all(Path);
            fs::create_directories(Path + "/t");
        }
        ~TDir()
        {
            fs::remove_all(Path);
        }
    };
    void Save(const std::string& path, const J& v)
    {
        std::ofstream(path) << v;
    }
}

void setup()
{
    Error.SetEnabled(false);
    Warn.SetEnabled(false);
    Info.SetEnabled(false);
    Debug.SetEnabled(false);
}

void property(Gen& g)
{
    auto& st = Static();
    sim::resetClock();
    sim::onWait = nullptr;
    TDir dir;
    bool notes = g.replaying();
    auto now = [] { return sim::nowNs(); };
    std::string trace;
    auto log = [&](const std::string& s) {
        auto l = std::to_string(now() / 1000) + " us " + s;
        trace += l + "\n";
        if (trace.size() > 12000)
            trace.erase(0, 6000);
        if (notes)
            g.note(l);
    };
    // the clock is common for ports that are served one after another, so there is no high priority with several of them
    size_t nPorts = 1 + g.below(2);
    // --- templates
    std::vector<Template> templates(1 + g.below(2));
    for (size_t k = 0; k < templates.size(); ++k) {
        auto& t = templates[k];
        t.Type = "T" + std::to_string(k);
        t.Wb = g.flip();
        t.Cont = t.Wb && g.chance(2, 3);
        if (t.Wb && (!t.Cont || g.chance(2, 3))) {
            t.Signature = "WB" + std::to_string(k);
            t.MinFw = g.pick({"1.0.0", "1.5.0"});
        }
        t.ParamsArray = g.chance(1, 3);
        unsigned addr = 1000;
        size_t nParams = g.below(6);
        for (size_t i = 0; i < nParams; ++i) {
            Item p;
            p.Id = "p" + std::to_string(i);
            p.S.Type = Modbus::REG_HOLDING;
            p.S.Format = g.pick({U16, U16, S16, U32});
            p.S.Addr = addr;
            addr += p.S.Words() + unsigned(g.chance(1, 3) ? g.below(12) : 0);
            if (g.flip()) {
                p.Enum = true;
                p.Max = int(1 + g.below(3));
            } else {
                p.Range = true;
                p.Min = p.S.Format == S16 ? -int(g.below(5)) : 0;
                p.Max = g.pick({2, 10, 65535});
                if (p.S.Format == S16)
                    p.Max = std::min(p.Max, 32767);
            }
            p.ReadOnly = g.chance(1, 10);
            if (t.Wb && g.chance(1, 6))
                p.Fw = g.pick({"1.2.0", "2.0.0"});
            if (i && g.chance(1, 3)) {
                p.CondParam = int(g.below(i));
                p.CondValue = int(g.below(3));
                p.CondNot = g.chance(1, 3);
            }
            t.Params.push_back(p);
        }
        addr = 2000;
        for (size_t i = 0, n = 1 + g.below(6); i < n; ++i) {
            Item c;
            c.Id = "Ch " + std::to_string(i);
            c.S.Type = g.pick({Modbus::REG_HOLDING, Modbus::REG_HOLDING, Modbus::REG_INPUT, Modbus::REG_COIL, Modbus::REG_DISCRETE});
            c.S.Format = c.S.IsBit() ? U8 : g.pick({U16, S16, U32, S32});
            c.S.Addr = addr;
            addr += (c.S.IsBit() ? 1 : c.S.Words()) + unsigned(g.chance(1, 3) ? g.below(12) : 0);
            if (!c.S.IsBit())
                c.Scale = g.pick({1.0, 1.0, 0.1, 0.01, 10.0});
            bool writable = c.S.Type == Modbus::REG_HOLDING || c.S.Type == Modbus::REG_COIL;
            c.ReadOnly = writable && g.chance(1, 5);
            if (writable && !c.ReadOnly && g.chance(1, 5))
                c.S.WriteAddr = int(c.S.Addr + 3000);
            if (i) {
                if (c.S.WriteAddr >= 0 && g.chance(1, 3))
                    c.NoRead = true;
                if (t.Wb && g.chance(1, 6))
                    c.Fw = g.pick({"1.2.0", "2.0.0"});
                if (nParams && g.chance(1, 3)) {
                    c.CondParam = int(g.below(nParams));
                    c.CondValue = int(g.below(3));
                    c.CondNot = g.chance(1, 3);
                }
            }
            if (!c.NoRead && nPorts == 1 && g.chance(1, 3))
                c.Period = int(1000 + g.below(4000));
            t.Channels.push_back(c);
        }
        for (size_t i = 0, n = g.below(3); i < n; ++i)
            t.Setup.push_back({3000 + unsigned(i) * 20, uint16_t(g.bits(16))});
        Save(dir.Path + "/t/" + t.Type + ".json", t.Json());
        g.note("template " + jsonText(t.Json()));
    }
    // --- devices and the configuration
    std::vector<std::shared_ptr<SimPort>> lines;
    std::vector<std::unique_ptr<Dev>> devs;
    J root(::Json::objectValue);
    root["ports"] = J(::Json::arrayValue);
    auto addDev = [&](int port, unsigned slave, bool inConfig) -> Dev& {
        devs.push_back(std::make_unique<Dev>());
        auto& d = *devs.back();
        d.Port = port;
        d.T = &templates[g.below(templates.size())];
        d.InConfig = inConfig;
        d.Slave.Id = slave;
        d.Slave.Seed = g.bits();
        d.Slave.AnswerNs = int64_t(g.range(200, 5000)) * 1000;
        d.Model = g.chance(1, 12) ? "OTHER" : d.T->Signature;
        d.Fw = g.pick({"1.5.3", "1.5.3", "1.1.0", "2.0.0"});
        if (g.chance(1, 3)) // without the extended model
            for (unsigned a = 206; a < 220; ++a)
                d.Bad[ModbusSlave::HOLDING].insert(a);
        if (g.chance(1, 3))
            for (auto& c: d.T->Channels)
                if (c.Id != "Ch 0" && !c.S.IsBit() && g.chance(1, 3))
                    for (unsigned i = 0; i < c.S.Words(); ++i)
                        d.Bad[c.S.Table()].insert(c.S.Addr + i);
        if (inConfig)
            for (auto& p: d.T->Params)
                if (!p.ReadOnly && p.Fw.empty() && g.chance(1, 4))
                    d.Config[p.Id] = int(g.range(0, uint64_t(std::min(p.Max, 20))));
        if (g.chance(1, 3))
            for (auto& p: d.T->Params)
                if (!d.Config.count(p.Id) && g.chance(1, 3))
                    for (unsigned i = 0; i < p.S.Words(); ++i)
                        d.Bad[p.S.Table()].insert(p.S.Addr + i);
        d.Reset();
        return d;
    };
    for (size_t p = 0; p < nPorts; ++p) {
        lines.push_back(std::make_shared<SimPort>("/dev/ttyRS485-" + std::to_string(p + 1), 95486));
        lines.back()->DrainOnWrite = true;
        J j;
        j["port_type"] = "serial";
        j["path"] = lines.back()->Description;
        j["baud_rate"] = 115200;
        j["parity"] = "N";
        j["data_bits"] = 8;
        j["stop_bits"] = 2;
        j["enabled"] = true;
        j["devices"] = J(::Json::arrayValue);
        for (size_t i = 0, n = 1 + g.below(2); i < n; ++i) {
            auto& d = addDev(int(p), unsigned(1 + i), true);
            d.Id = "device_" + std::to_string(p) + "_" + std::to_string(i);
            J dj;
            dj["device_type"] = d.T->Type;
            if (g.flip())
                dj["slave_id"] = std::to_string(d.Slave.Id);
            else
                dj["slave_id"] = d.Slave.Id;
            dj["id"] = d.Id;
            for (auto& c: d.Config)
                dj[c.first] = c.second;
            j["devices"].append(dj);
        }
        root["ports"].append(j);
        if (g.flip())
            addDev(int(p), 77, false);
    }
    Save(dir.Path + "/c.json", root);
    g.note("configuration " + jsonText(root));
    for (auto& d: devs) {
        std::string bad;
        for (int t = 0; t < 4; ++t)
            for (auto a: d->Bad[t])
                bad += " " + std::to_string(t) + ":" + std::to_string(a);
        g.note(d->Str() + ": model " + d->Model + " fw " + d->Fw + (bad.empty() ? "" : ", does not have" + bad));
    }
    auto rpcConfig = std::make_shared<TRPCConfig>();
    auto templateMap = std::make_shared<TTemplateMap>(st.Schema);
    templateMap->AddTemplatesDir(dir.Path + "/t", false);
    PHandlerConfig handlerConfig;
    try {
        handlerConfig = LoadConfig(dir.Path + "/c.json", st.Factory, st.Common, *templateMap, rpcConfig, st.Ports, st.ProtocolSchemas,
                                   [&](const J& port, PRPCConfig) {
                                       for (auto& l: lines)
                                           if (l->Description == port["path"].asString())
                                               return std::make_shared<TFeaturePort>(l, false);
                                       PBT_FAIL("unknown port");
                                   });
    } catch (const std::exception& e) {
        PBT_FAIL("the configuration is refused: " << e.what());
    }
    TRPCDeviceParametersCache cache;
    cache.RegisterCallbacks(handlerConfig);
    auto mqtt = std::make_shared<WBMQTT::TDeviceDriver>();
    auto driver = std::make_shared<TMQTTSerialDriver>(mqtt, handlerConfig);
    TSerialClientTaskRunner runner(driver);
    RpcServerStub rpc;
    auto schema = [](const std::string& name) { return repoDir() + "/wb-mqtt-serial-rpc-" + name + "-request.schema.json"; };
    std::string configFile = dir.Path + "/c.json";
    TRPCDeviceHandler handler(configFile, schema("device-load-config"), schema("device-load"), schema("device-set"), schema("device-probe"), schema("device-set-poll"), st.Factory, templateMap, runner,
                              cache, rpc.Server);
    for (auto& p: handlerConfig->PortConfigs)
        for (auto& x: p->Devices)
            for (auto& d: devs)
                if (d->InConfig && d->Id == x->Device->DeviceConfig()->Id)
                    d->Device = x->Device;
    auto drivers = driver->GetPortDrivers();
    // --- the lines
    struct Request
    {
        std::shared_ptr<RpcCall> Call;
        Dev* D = nullptr;
        bool Faulty = false; // something went wrong with an exchange
        unsigned Frames = 0;
        std::set<std::pair<int, unsigned>> MayWrite;
    };
    std::shared_ptr<Request> cur;
    unsigned lossPct = 0;
    bool interesting = false, useful = false;
    for (auto& d: devs) {
        auto* raw = d.get();
        d->Slave.Port = lines[size_t(d->Port)].get();
        if (d->Device)
            d->Device->AddOnConnectionStateChangedCallback([&, raw](PSerialDevice x) {
                bool down = x->GetConnectionState() == TDeviceConnectionState::DISCONNECTED;
                log(raw->Str() + (down ? " disconnected" : " connected"));
                if (down) {
                    raw->SetUp = false;
                    raw->Written.clear();
                    raw->Cached = false;
                    interesting = true;
                }
            });
        d->Slave.OnRequest = [&, raw](const ModbusRequest& q) {
            auto& d = *raw;
            Fault f = Fault::None;
            if (!d.Online)
                f = Fault::Timeout;
            else if (lossPct && g.below(100) < lossPct)
                f = g.pick({Fault::Timeout, Fault::LostAnswer, Fault::BadCrc});
            log(d.Str() + (cur ? " request " : " poll ") + q.Str() + (f == Fault::None ? "" : " fails"));
            // a device with continuous read answers with a filler instead of registers it does not have
            for (int t = 0; t < 4; ++t)
                d.Slave.Illegal[t] = d.ContinuousNow() && !q.IsWrite() ? std::set<unsigned>() : d.Bad[t];
            if (q.Fn == 3 && q.Addr == 250)
                d.FwKnown = f == Fault::None;
            if (cur) {
                ++cur->Frames;
                cur->Faulty |= f != Fault::None;
                // continuous read can't be switched off for the check of fillers
                if (q.IsWrite() && q.Addr == 114)
                    d.FillersUnchecked |= f != Fault::None;
                PBT_CHECK(cur->D == &d, "a frame to another device: " << q.Str() << "\n" << trace);
                if (q.IsWrite() && q.Addr != 114)
                    for (unsigned a = q.Addr; a < q.Addr + q.Count; ++a)
                        PBT_CHECK(cur->MayWrite.count({q.Fn == 5 || q.Fn == 15, a}), "the request does not ask to write " << a << ": " << jsonText(cur->Call->Request) << "\n" << trace);
                return f;
            }
            PBT_CHECK(d.InConfig, "a device that is not configured is polled\n" << trace);
            PBT_CHECK(!d.Suspended || now() >= d.SuspendedTill, d.Str() << " is polled though it is suspended: " << q.Str() << "\n" << trace);
            d.Suspended = false;
            if (q.IsWrite()) {
                if (q.Addr == 114) {
                    PBT_CHECK(d.T->Cont, "continuous read is switched on\n" << trace);
                    return f;
                }
                PBT_CHECK(!d.SetUp, d.Str() << ": setup is written again though the device was not disconnected or suspended: " << q.Str() << "\n" << trace);
                for (unsigned i = 0; i < q.Count; ++i) {
                    unsigned a = q.Addr + i;
                    int expected = -1;
                    for (auto& s: d.T->Setup)
                        if (s.Addr == a)
                            expected = s.Value;
                    for (auto& p: d.T->Params)
                        if (d.Config.count(p.Id))
                            for (auto& w: p.Words(uint64_t(d.Config[p.Id])))
                                if (w.first == a)
                                    expected = w.second;
                    PBT_CHECK(expected == (q.Data[2 * i] << 8 | q.Data[2 * i + 1]), d.Str() << ": polling writes " << q.Str() << "\n" << trace);
                    if (f == Fault::None)
                        d.Written.insert(a);
                }
            } else if (q.Addr != 250) {
                for (auto& s: d.T->Setup)
                    PBT_CHECK(d.Written.count(s.Addr), d.Str() << " is polled before setup item " << s.Addr << " is written\n" << trace);
                for (auto& p: d.T->Params)
                    if (d.Config.count(p.Id) && p.CondParam < 0)
                        PBT_CHECK(d.Written.count(p.S.Addr), d.Str() << " is polled before parameter " << p.Id << " is written\n" << trace);
                d.SetUp = true;
                d.PollReads += f == Fault::None;
                for (auto& c: d.T->Channels)
                    if (f == Fault::None && c.Fw.empty() && unsigned(c.S.Table()) == (q.Fn == 1 ? ModbusSlave::COIL : q.Fn == 2 ? ModbusSlave::DISCRETE : q.Fn == 4 ? ModbusSlave::INPUT : ModbusSlave::HOLDING) &&
                        c.S.Addr == q.Addr)
                        d.Ever[c.Period != 0] = d.Polled[c.Period != 0] = true;
            }
            return f;
        };
    }
    for (size_t p = 0; p < nPorts; ++p)
        lines[p]->OnWrite = [&, p](const Bytes& q) {
            for (auto& d: devs)
                if (size_t(d->Port) == p && !q.empty() && q[0] == d->Slave.Id) {
                    d->Slave.Handle(q);
                    return;
                }
            PBT_FAIL("a frame nobody asked for: " << hex(q) << "\n" << trace);
        };
    auto cycle = [&](int p) {
        drivers[size_t(p)]->Cycle();
    };
    // --- requests
    auto address = [&](Dev& d, J& r, bool type) {
        if (d.InConfig && g.flip()) {
            r["device_id"] = d.Id;
            return;
        }
        r["path"] = lines[size_t(d.Port)]->Description;
        if (g.flip())
            r["slave_id"] = std::to_string(d.Slave.Id);
        else
            r["slave_id"] = d.Slave.Id;
        if (type) {
            r["device_type"] = d.T->Type;
            r["baud_rate"] = 115200;
            r["parity"] = "N";
            r["data_bits"] = 8;
            r["stop_bits"] = 2;
        }
    };
    auto perform = [&](const std::string& method, J r, Dev& d, std::set<std::pair<int, unsigned>> mayWrite) {
        auto q = std::make_shared<Request>();
        q->D = &d;
        q->MayWrite = mayWrite;
        log(method + " " + jsonText(r));
        cur = q;
        rpc.OnAnswer = [&, q](RpcCall& c) {
            q->D->AtAnswer = q->D->Slave;
            if (c.Ok && q->D->InConfig && c.Method == "device/LoadConfig")
                q->D->Cached = true;
            q->Call = std::make_shared<RpcCall>(c);
            log("answer " + (c.Ok ? jsonText(c.Result) : c.Message));
            if (cur == q)
                cur = nullptr;
        };
        auto call = rpc.Call(method, r);
        q->Call = call;
        for (int i = 0; i < 3 && !call->Answers; ++i)
            cycle(d.Port);
        PBT_CHECK(call->Answers == 1, method << " " << jsonText(r) << " is not answered\n" << trace);
        bool faulty = q->Faulty || !lines[size_t(d.Port)]->Opened;
        if (!call->Ok)
            PBT_CHECK(call->Code == -32000, "error " << call->Code << " " << call->Message << "\n" << trace);
        if (faulty)
            interesting = true;
        q->Faulty = faulty;
        q->Call = call;
        return q;
    };
    // does the value belong to the item
    auto checkValue = [&](Dev& d, const Item& i, const J& v, const std::string& what) {
        if (d.Missing(i)) {
            interesting = true;
            if (v.isString() && v.asString() == "unsupported")
                return;
            PBT_CHECK(d.T->Cont && (i.FillerIsValid() || d.FillersUnchecked), d.Str() << " does not have " << i.Id << ", the answer is " << jsonText(v) << ": " << what << "\n" << trace);
            return;
        }
        PBT_CHECK(Near(v, i.Value(d.AtAnswer)), i.Id << " of " << d.Str() << " is " << i.Value(d.AtAnswer) << ", the answer is " << jsonText(v) << ": " << what << "\n" << trace);
    };
    auto fwOk = [&](Dev& d, const Item& i) { return !d.T->Wb || i.Fw.empty() || !Newer(i.Fw, d.Fw); };
    // value of a parameter for conditions
    auto paramOf = [&](Dev& d, int k) -> std::optional<int64_t> {
        auto& p = d.T->Params[size_t(k)];
        if (d.Missing(p) || !fwOk(d, p))
            return std::nullopt;
        return p.Signed(p.S.Number(d.AtAnswer));
    };
    auto genLoad = [&](Dev& d) {
        J r;
        address(d, r, true);
        std::set<std::string> chans, params;
        bool wrong = false;
        if (g.chance(2, 3)) {
            r["channels"] = J(::Json::arrayValue);
            for (auto& c: d.T->Channels)
                if (g.chance(1, 2)) {
                    r["channels"].append(c.Id);
                    chans.insert(c.Id);
                    wrong |= c.NoRead;
                }
        }
        bool all = chans.empty();
        if (g.flip()) {
            r["parameters"] = J(::Json::arrayValue);
            for (auto& p: d.T->Params)
                if (g.chance(1, 2)) {
                    r["parameters"].append(p.Id);
                    params.insert(p.Id);
                }
        }
        if (g.chance(1, 12)) {
            r[g.flip() ? "channels" : "parameters"].append("nothing");
            wrong = true;
        }
        auto before114 = d.Slave.Get(ModbusSlave::HOLDING, 114);
        bool connected = d.Device && d.Device->GetConnectionState() == TDeviceConnectionState::CONNECTED;
        auto q = perform("device/Load", r, d, {});
        auto what = "device/Load " + jsonText(r);
        if (!q->Faulty && d.T->Cont)
            PBT_CHECK(d.ContinuousNow(), "continuous read is left switched off: " << what << "\n" << trace);
        if (!d.T->Cont)
            PBT_CHECK(d.Slave.Get(ModbusSlave::HOLDING, 114) == before114, "continuous read is switched on: " << what << "\n" << trace);
        (void)connected;
        if (wrong) {
            PBT_CHECK(!q->Call->Ok, "an answer to a request of unknown items: " << what << "\n" << trace);
            return;
        }
        if (!q->Call->Ok) {
            PBT_CHECK(q->Faulty, "error " << q->Call->Message << ": " << what << "\n" << trace);
            return;
        }
        useful = true;
        auto& res = q->Call->Result;
        std::set<std::string> readonly;
        for (auto& x: res["readonly"])
            PBT_CHECK(readonly.insert(x.asString()).second, x.asString() << " is twice in \"readonly\": " << what << "\n" << trace);
        bool sure = !q->Faulty && d.FwKnown;
        bool condKnown = false; // any parameter of conditions is known
        for (auto& c: d.T->Channels)
            condKnown |= c.CondParam >= 0 && paramOf(d, c.CondParam);
        std::set<std::string> expected;
        for (auto& c: d.T->Channels) {
            bool has = res["channels"].isMember(c.Id);
            bool must = !c.NoRead && (all || chans.count(c.Id)), may = must;
            if (must && c.CondParam >= 0) {
                auto v = paramOf(d, c.CondParam);
                auto& p = d.T->Params[size_t(c.CondParam)];
                if (!condKnown || (d.Missing(p) && d.T->Cont))
                    must = false;
                else
                    must = may = v ? (*v == c.CondValue) != c.CondNot : c.CondNot;
            }
            if (must && !fwOk(d, c))
                must = false, may = !sure;
            if (!sure)
                must = false;
            PBT_CHECK(has || !must, "no channel " << c.Id << " in the answer to " << what << "\n" << trace);
            PBT_CHECK(!has || may || !sure, "channel " << c.Id << " in the answer to " << what << "\n" << trace);
            if (has) {
                expected.insert(c.Id);
                checkValue(d, c, res["channels"][c.Id], what);
                bool ro = c.ReadOnly || c.S.Type == Modbus::REG_INPUT || c.S.Type == Modbus::REG_DISCRETE;
                PBT_CHECK(readonly.count(c.Id) == ro, "channel " << c.Id << (ro ? " is not" : " is") << " in \"readonly\": " << what << "\n" << trace);
            }
        }
        PBT_EQ(res["channels"].size(), unsigned(expected.size()), "channels in the answer to " << what);
        size_t n = 0;
        for (auto& p: d.T->Params) {
            bool has = res["parameters"].isMember(p.Id);
            PBT_CHECK(has || !sure || !params.count(p.Id) || !fwOk(d, p), "no parameter " << p.Id << " in the answer to " << what << "\n" << trace);
            PBT_CHECK(!has || params.count(p.Id), "parameter " << p.Id << " in the answer to " << what << "\n" << trace);
            if (has) {
                ++n;
                checkValue(d, p, res["parameters"][p.Id], what);
                PBT_CHECK(readonly.count(p.Id) == p.ReadOnly, "parameter " << p.Id << (p.ReadOnly ? " is not" : " is") << " in \"readonly\": " << what << "\n" << trace);
            }
        }
        PBT_EQ(size_t(res["parameters"].size()), n, "parameters in the answer to " << what);
        label("device/Load");
    };
    auto genLoadConfig = [&](Dev& d) {
        J r;
        address(d, r, true);
        bool force = g.chance(1, 3);
        if (force)
            r["force"] = true;
        std::map<std::string, J> known;
        bool fromConfig = false;
        if (d.InConfig && !force) {
            if (d.Cached) {
                known = d.Cache;
            } else {
                fromConfig = true;
                for (auto& c: d.Config)
                    known[c.first] = c.second;
            }
        }
        auto before114 = d.Slave.Get(ModbusSlave::HOLDING, 114);
        auto q = perform("device/LoadConfig", r, d, {});
        auto what = "device/LoadConfig " + jsonText(r);
        if (!q->Faulty && d.T->Cont && !d.T->Params.empty())
            PBT_CHECK(d.ContinuousNow(), "continuous read is left switched off: " << what << "\n" << trace);
        if (!d.T->Cont)
            PBT_CHECK(d.Slave.Get(ModbusSlave::HOLDING, 114) == before114, "continuous read is switched on: " << what << "\n" << trace);
        bool compatible = !d.T->Wb || (d.Model == d.T->Signature && !d.T->Signature.empty() && !Newer(d.T->MinFw, d.Fw));
        if (!q->Call->Ok) {
            PBT_CHECK(q->Faulty || !d.FwKnown || (!compatible && !d.T->Params.empty()), "error " << q->Call->Message << ": " << what << "\n" << trace);
            return;
        }
        if (d.T->Params.empty()) {
            d.Cached = false;
            return;
        }
        PBT_CHECK(compatible, "settings of an incompatible device are read: " << what << "\n" << trace);
        useful = true;
        bool sure = !q->Faulty && d.FwKnown;
        auto& res = q->Call->Result;
        if (d.T->Wb && sure) {
            PBT_EQ(res["model"].asString(), d.Model, "model in the answer to " << what);
            PBT_EQ(res["fw"].asString(), d.Fw, "firmware in the answer to " << what);
        }
        // parameters whose conditions hold
        std::map<std::string, J> params;
        for (auto& x: res["parameters"].getMemberNames())
            params[x] = res["parameters"][x];
        bool fuzzy = false; // a filler that looks like a value
        for (auto& p: d.T->Params) {
            bool has = params.count(p.Id);
            if (known.count(p.Id)) {
                PBT_CHECK(has, "no parameter " << p.Id << " in the answer to " << what << "\n" << trace);
                if (!(d.Changed.count(p.Id) && fromConfig))
                    PBT_CHECK(jsonText(params[p.Id]) == jsonText(known[p.Id]), p.Id << " is known to be " << jsonText(known[p.Id]) << ", the answer is " << jsonText(params[p.Id]) << ": " << what << "\n" << trace);
                continue;
            }
            bool must = !p.ReadOnly, may = must;
            if (must && p.CondParam >= 0) {
                auto c = "p" + std::to_string(p.CondParam);
                bool holds = params.count(c) && params[c].isNumeric() ? (params[c].asInt64() == p.CondValue) != p.CondNot : p.CondNot;
                must = may = holds;
            }
            if (must && !fwOk(d, p))
                must = false, may = !sure;
            if (!sure)
                must = false;
            if (d.Missing(p)) // it is not in the answer or is "unsupported"
                must = false;
            fuzzy |= d.T->Cont && d.Missing(p) && p.FillerIsValid();
            if (d.Missing(p) && d.T->Cont)
                fuzzy = true; // marked after the conditions were checked
            if (fuzzy || (d.Missing(p) && has && params[p.Id].isString())) // "unsupported" in spite of the condition
                continue;
            PBT_CHECK(has || !must, "no parameter " << p.Id << " in the answer to " << what << "\n" << trace);
            PBT_CHECK(!has || may, "parameter " << p.Id << " in the answer to " << what << "\n" << trace);
        }
        for (auto& p: d.T->Params)
            if (params.count(p.Id) && !known.count(p.Id))
                checkValue(d, p, params[p.Id], what);
        d.Cache = params; // if it is not lost while the request is performed
        label(fromConfig ? "device/LoadConfig, first" : known.empty() ? "device/LoadConfig" : "device/LoadConfig from cache");
    };
    auto genSet = [&](Dev& d) {
        J r;
        address(d, r, true);
        std::map<std::pair<int, unsigned>, uint16_t> target;
        std::set<std::pair<int, unsigned>> may;
        bool wrong = false, illegal = false;
        auto add = [&](const std::string& kind, const Item& i) {
            uint64_t raw;
            if (i.S.IsBit())
                raw = g.below(2);
            else if (kind == "parameters")
                raw = uint64_t(int64_t(i.Min) + int64_t(g.below(uint64_t(std::min(i.Max - i.Min, 40)) + 1)));
            else
                raw = g.chance(1, 3) ? g.bits(i.S.Format == U16 || i.S.Format == S16 ? 16 : 31) : g.below(30000);
            double v = double(i.Signed(raw)) * i.Scale;
            if (i.Scale >= 1)
                r[kind][i.Id] = ::Json::Int64(v);
            else
                r[kind][i.Id] = v;
            if (i.Refused()) {
                wrong = true;
                return;
            }
            if (i.S.Type == Modbus::REG_INPUT || i.S.Type == Modbus::REG_DISCRETE) {
                illegal = true;
                return;
            }
            for (auto& w: i.Words(raw)) {
                target[{i.S.IsBit(), w.first}] = w.second;
                may.insert({i.S.IsBit(), w.first});
                illegal |= d.Bad[i.S.Table()].count(w.first);
            }
        };
        std::set<std::string> params;
        for (auto& c: d.T->Channels)
            if (g.chance(1, 3) && (!c.ReadOnly || g.chance(1, 8)) && ((c.S.Type != Modbus::REG_INPUT && c.S.Type != Modbus::REG_DISCRETE) || g.chance(1, 8)))
                add("channels", c);
        for (auto& p: d.T->Params)
            if (g.chance(1, 3) && (!p.ReadOnly || g.chance(1, 8))) {
                add("parameters", p);
                params.insert(p.Id);
            }
        if (g.chance(1, 15)) {
            r[g.flip() ? "channels" : "parameters"]["nothing"] = 1;
            wrong = true;
        }
        std::map<unsigned, uint16_t> before[2] = {d.Slave.Cells[ModbusSlave::HOLDING], d.Slave.Cells[ModbusSlave::COIL]};
        d.AtAnswer = d.Slave;
        auto get = [&](const std::pair<int, unsigned>& k) { return d.AtAnswer.Get(k.first ? ModbusSlave::COIL : ModbusSlave::HOLDING, k.second); };
        std::map<std::pair<int, unsigned>, uint16_t> old;
        for (auto& t: target)
            old[t.first] = get(t.first);
        if (wrong)
            may.clear();
        for (auto& p: params)
            d.Changed.insert(p);
        auto q = perform("device/Set", r, d, may);
        auto what = "device/Set " + jsonText(r);
        for (auto& t: target)
            PBT_CHECK(get(t.first) == t.second || get(t.first) == old[t.first], "register " << t.first.second << " of " << d.Str() << " was " << old[t.first] << ", has to be " << t.second << ", is "
                                                                                           << get(t.first) << ": " << what << "\n" << trace);
        if (wrong || illegal)
            PBT_CHECK(!q->Call->Ok, "success of a request that can't be performed: " << what << "\n" << trace);
        if (q->Call->Ok) {
            for (auto& t: target)
                PBT_CHECK(get(t.first) == t.second, "register " << t.first.second << " of " << d.Str() << " has to be " << t.second << ", is " << get(t.first) << " in spite of success: " << what << "\n" << trace);
            useful |= !target.empty();
            label("device/Set");
        } else {
            PBT_CHECK(wrong || illegal || q->Faulty, "error " << q->Call->Message << ": " << what << "\n" << trace);
        }
        // the values in the cache may have changed
        if (!wrong || q->Frames)
            d.Cached = false;
    };
    auto genSetPoll = [&](Dev& d, bool poll) {
        J r;
        address(d, r, false);
        r["poll"] = poll;
        log("device/SetPoll " + jsonText(r));
        rpc.OnAnswer = nullptr;
        auto c = rpc.Call("device/SetPoll", r);
        PBT_CHECK(c->Answers == 1, "device/SetPoll is not answered\n" << trace);
        auto what = "device/SetPoll " + jsonText(r);
        if (!d.InConfig) {
            PBT_CHECK(!c->Ok, "polling of a device that is not configured is changed: " << what << "\n" << trace);
            return;
        }
        if (!poll) {
            PBT_CHECK(c->Ok, "error " << c->Message << ": " << what << "\n" << trace);
            d.Suspended = true;
            d.SuspendedTill = now() + 600000 * MS;
            d.SetUp = false;
            d.Written.clear();
            interesting = true;
            label("suspended");
            return;
        }
        if (d.Suspended && now() < d.SuspendedTill)
            PBT_CHECK(c->Ok, "error " << c->Message << ": " << what << "\n" << trace);
        if (!d.Suspended)
            PBT_CHECK(!c->Ok, "polling is not suspended, but resumed: " << what << "\n" << trace);
        d.Suspended = false;
    };
    // --- history
    auto some = [&]() -> Dev& { return *devs[g.below(devs.size())]; };
    size_t steps = g.size(1, 14);
    if (g.chance(1, 10)) { // polling is not started yet
        auto& d = some();
        J r;
        address(d, r, false);
        r["poll"] = g.flip();
        log("device/SetPoll " + jsonText(r));
        rpc.OnAnswer = nullptr;
        auto c = rpc.Call("device/SetPoll", r);
        PBT_CHECK(c->Answers == 1, "device/SetPoll is not answered\n" << trace);
        PBT_CHECK(!c->Ok || (d.InConfig && !r["poll"].asBool()), "polling that is not started is resumed\n" << trace);
        if (c->Ok) {
            d.Suspended = true;
            d.SuspendedTill = now() + 600000 * MS;
        }
        label("device/SetPoll before polling");
    }
    if (!g.chance(1, 8))
        for (size_t p = 0; p < nPorts; ++p)
            for (int i = 0; i < 3; ++i)
                cycle(int(p));
    bool started = drivers.size() == nPorts;
    PBT_CHECK(started, "number of ports");
    for (size_t p = 0; p < nPorts; ++p)
        cycle(int(p));
    for (size_t k = 0; k < steps; ++k) {
        switch (g.weighted({4, 4, 3, 3, 5, 2, 1, 1, 1})) {
            case 0:
                genLoad(some());
                break;
            case 1:
                genSet(some());
                break;
            case 2:
                genLoadConfig(some());
                break;
            case 3: {
                auto& d = some();
                genSetPoll(d, d.Suspended ? g.flip() : g.chance(1, 8));
                break;
            }
            case 4:
                for (size_t i = 0, n = 1 + g.below(6); i < n; ++i)
                    cycle(int(g.below(nPorts)));
                break;
            case 5: {
                auto& d = some();
                d.Online = !d.Online;
                log(d.Str() + (d.Online ? " is switched on" : " is switched off"));
                if (!d.Online && d.InConfig && g.flip()) {
                    for (int i = 0; i < 40 && !d.Suspended && d.Device->GetConnectionState() != TDeviceConnectionState::DISCONNECTED; ++i)
                        cycle(d.Port);
                    if (g.flip())
                        d.Online = true;
                }
                break;
            }
            case 6:
                lossPct = lossPct ? 0 : unsigned(g.range(5, 60));
                log("losses " + std::to_string(lossPct) + " %");
                break;
            case 7:
                sim::advance(milliseconds(g.pick({500, 30000, 301000, 601000})));
                log("time");
                break;
            default: {
                auto& l = *lines[g.below(nPorts)];
                l.OpenFails = !l.OpenFails;
                if (l.OpenFails)
                    l.Close();
                log(l.Description + (l.OpenFails ? " can't be opened" : " can be opened"));
            }
        }
    }
    // --- everything works: every device is set up and polled
    lossPct = 0;
    for (auto& l: lines)
        l->OpenFails = false;
    for (auto& d: devs) {
        d->Online = true;
        d->PollReads = 0;
        d->Polled[0] = d->Polled[1] = false;
    }
    log("everything works");
    for (auto& d: devs)
        if (d->Suspended && now() < d->SuspendedTill && g.flip())
            genSetPoll(*d, true);
    auto waiting = [&](const Dev& d) {
        bool bad = false; // registers may become unsupported
        for (auto& b: d.Bad)
            bad |= !b.empty();
        bool all = d.PollReads && (bad || ((d.Polled[0] || !d.Ever[0]) && (d.Polled[1] || !d.Ever[1])));
        return d.InConfig && !all && !d.Suspended;
    };
    auto until = now() + 60000 * MS;
    auto run = [&](int64_t until) {
        for (int i = 0; i < 3000 && now() < until; ++i) {
            bool any = false;
            for (auto& d: devs)
                any |= waiting(*d);
            if (!any)
                break;
            for (size_t p = 0; p < nPorts; ++p)
                cycle(int(p));
            if (i % 16 == 15)
                sim::advance(milliseconds(500)); // for the read periods
        }
    };
    run(until);
    for (auto& d: devs)
        PBT_CHECK(!waiting(*d), d->Str() << " is not polled\n" << trace);
    bool suspended = false;
    for (auto& d: devs)
        suspended |= d->Suspended;
    if (suspended) {
        sim::advance(milliseconds(601000));
        for (auto& d: devs)
            d->Suspended = false;
        for (auto& d: devs) {
            d->PollReads = 0;
            d->Polled[0] = d->Polled[1] = false;
        }
        log("ten minutes later");
        run(now() + 60000 * MS);
        for (auto& d: devs)
            PBT_CHECK(!waiting(*d), d->Str() << " is not polled after ten minutes\n" << trace);
    }
    if (useful && interesting)
        nontrivial();
    if (wantSample())
        sample(std::to_string(devs.size()) + " devices, " + std::to_string(steps) + " steps, " + trace.substr(0, 300));
}
