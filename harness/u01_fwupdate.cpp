// U01: firmware update over the bus (fw-update RPC): the image written to a device is exactly the released file for its
// signature and release suite, success is reported only for a completely accepted image, every failure ends in a
// reported error, and the service stays usable.
//
// One case: a release server, devices with components and a history of requests. The line is followed request by
// request: the model knows what the driver has to write next, decides how the device takes it and where that leads.
#include "modbus_sim.h"
#include "port/feature_port.h"
#include "rpc/rpc_fw_update_handler.h"
#include "rpcworld.h"
#include "serial_client.h"
#include <sstream>
using namespace pbt;

const char* PROPERTY_ID = "U01";
const char* NONTRIVIAL_RULE = "one case = a release server, one or two devices and a history of 1-6 requests (firmware information, updates, restores, "
                              "clearing of errors, malformed ones). Non-trivial: at least one image of two or more blocks was written completely, or a "
                              "flashing that has started was broken by the device";

// the handler's constructor without MQTT is available to this class
class FwHandlerTest
{
public:
    static std::shared_ptr<TRPCFwUpdateHandler> Make(ITaskRunner& r, PHttpClient http, PFwUpdateState st, const std::string& suite)
    {
        return std::shared_ptr<TRPCFwUpdateHandler>(new TRPCFwUpdateHandler(r, http, st, suite));
    }
    static void Register(TRPCFwUpdateHandler& h, WBMQTT::PMqttRpcServer s)
    {
        h.RegisterRpcMethods(s);
    }
};

namespace
{
    const int64_t MS = 1000000;
    using Bytes = std::vector<uint8_t>;
    const std::string BASE = "https://fw-releases.wirenboard.com/";
    const std::string TOPIC = "/wb-mqtt-serial/firmware_update/state";

    struct File
    {
        Bytes Data;
        std::string Version;
        bool Fails = false; // the server doesn't give it
        bool Good() const
        {
            return !Fails && Data.size() >= 32 && Data.size() % 2 == 0;
        }
    };

    struct Server: IHttpClient
    {
        std::map<std::string, std::string> Texts;
        std::map<std::string, File> Files;
        std::set<std::string> Down;
        std::string GetText(const std::string& url) override
        {
            if (Down.count(url) || !Texts.count(url))
                throw std::runtime_error("HTTP 404 downloading " + url);
            return Texts[url];
        }
        std::vector<uint8_t> GetBinary(const std::string& url) override
        {
            if (!Files.count(url) || Files[url].Fails)
                throw std::runtime_error("HTTP 503 downloading " + url);
            return Files[url].Data;
        }
    };

    struct Component
    {
        int Num;
        std::string Sig, Ver, Model;
        bool Unavailable = false;
    };

    struct Device
    {
        unsigned Id;
        ModbusSlave Slave;
        std::string Sig, Fw, Boot, Model;
        bool GarbageSig = false, GarbageFw = false, GarbageBoot = false;
        bool HasExModel = true, HasModel = true, HasBoot = true, HasPresence = true;
        int Preserve = 0; // 0 - register 131 reads as 0, 1 - as 1, 2 - absent
        bool InBootloader = false;
        bool SilentReboot = false; // old firmware doesn't answer to the reboot command
        bool Dead = false;
        std::vector<Component> Comps;
        int64_t DeafTill = 0;

        void putString(ModbusSlave::Table t, unsigned addr, unsigned n, const std::string& s)
        {
            for (unsigned i = 0; i < n; ++i)
                Slave.Set(t, addr + i, i < s.size() ? uint8_t(s[i]) : 0);
        }
        void Fill()
        {
            putString(ModbusSlave::HOLDING, 290, 12, Sig);
            putString(ModbusSlave::HOLDING, 250, 16, Fw);
            putString(ModbusSlave::HOLDING, 330, 7, Boot);
            putString(ModbusSlave::HOLDING, 200, 20, Model);
            if (GarbageSig)
                Slave.Set(ModbusSlave::HOLDING, 290, 0x81);
            if (GarbageFw)
                Slave.Set(ModbusSlave::HOLDING, 251, 0x07);
            if (GarbageBoot)
                Slave.Set(ModbusSlave::HOLDING, 331, 0xF3);
            Slave.Set(ModbusSlave::HOLDING, 131, uint16_t(Preserve == 1));
            for (int i = 0; i < 8; ++i)
                Slave.Set(ModbusSlave::DISCRETE, unsigned(65152 + i), 0);
            for (auto& c: Comps) {
                unsigned o = unsigned(c.Num) * 48;
                Slave.Set(ModbusSlave::DISCRETE, 65152u + unsigned(c.Num), 1);
                putString(ModbusSlave::INPUT, 64788 + o, 12, c.Unavailable ? std::string(12, '\xFE') : c.Sig);
                putString(ModbusSlave::INPUT, 64800 + o, 16, c.Ver);
                putString(ModbusSlave::INPUT, 64768 + o, 20, c.Model);
            }
        }
        bool Readable(const ModbusRequest& r) const
        {
            if (r.Fn == 3) {
                if (r.Addr == 290)
                    return true;
                if (r.Addr == 330)
                    return HasBoot;
                if (InBootloader)
                    return false;
                if (r.Addr == 200)
                    return r.Count > 6 ? HasExModel : HasModel;
                if (r.Addr == 131)
                    return Preserve != 2;
                return r.Addr == 250;
            }
            return !InBootloader && (r.Fn == 4 || (r.Fn == 2 && HasPresence));
        }
    };

    struct Entry // of the published state
    {
        unsigned Slave;
        std::string Type;
        int Comp = -1;
        bool Error = true;
        std::string From, To; // "?" - any
        bool operator<(const Entry& o) const
        {
            return std::tie(Slave, Type, Comp) < std::tie(o.Slave, o.Type, o.Comp);
        }
        std::string Str() const
        {
            return "slave " + std::to_string(Slave) + " " + Type + (Comp < 0 ? "" : " " + std::to_string(Comp));
        }
    };

    struct Step
    {
        std::string Type;
        int Comp = -1;
        std::string CompModel, From, Url;
        const File* F = nullptr;
        bool Reboot = false;
        size_t Blocks() const
        {
            return (F->Data.size() - 32 + 135) / 136;
        }
        Bytes Block(size_t i) const
        {
            size_t b = 32 + i * 136;
            return Bytes(F->Data.begin() + long(b), F->Data.begin() + long(std::min(b + 136, F->Data.size())));
        }
    };

    struct Info // what the device told
    {
        bool SigRead = false;
        std::string Sig, Fw, Boot, Model;
        bool Preserve = false, Presence = false, ModelRead = false;
        std::map<int, int> CompParts; // number -> bits of the parts that were read
    };

    enum Phase
    {
        READ,
        REBOOT,
        INFO,
        BLOCK,
        DONE
    };

    struct Task
    {
        std::string Kind;
        std::string Type;
        std::shared_ptr<RpcCall> Call;
        Device* Dev = nullptr;
        TSerialPortConnectionSettings Settings;
        PSerialClientTask T;
        // the model
        Info I;
        bool Planned = false;
        std::vector<Step> Steps;
        bool LookupFailed = false;
        size_t Cur = 0;
        Phase Ph = READ;
        size_t Block = 0; // number of the block to be written
        unsigned Attempt = 0;
        bool RetryOfWritten = false;
        bool Broken = false; // the port fails from now on
        std::vector<bool> Results;
        int LastProgress = -1;
    };

    struct Runner: ITaskRunner
    {
        std::function<void(const Json::Value&, PSerialClientTask)> On;
        void RunTask(const Json::Value& request, PSerialClientTask task) override
        {
            On(request, task);
        }
    };

    bool sameSettings(const TSerialPortConnectionSettings& a, const TSerialPortConnectionSettings& b)
    {
        return a.BaudRate == b.BaudRate && a.DataBits == b.DataBits && a.Parity == b.Parity && a.StopBits == b.StopBits;
    }

    int cmpVersions(const std::string& a, const std::string& b) // of the form n.n.n
    {
        std::istringstream x(a), y(b);
        for (;;) {
            std::string p, q;
            bool r = bool(std::getline(x, p, '.')), s = bool(std::getline(y, q, '.'));
            if (!r && !s)
                return 0;
            int n = r ? std::stoi(p) : 0, m = s ? std::stoi(q) : 0;
            if (n != m)
                return n < m ? -1 : 1;
        }
    }
}

void property(Gen& g)
{
    sim::resetClock();
    bool tcp = g.chance(300, 1000);
    std::string suite = g.pick(std::vector<std::string>{"stable", "testing", "wb-2407", "dev"});
    std::vector<std::string> suites{"stable", "testing", "wb-2407", "dev", "stable2"};
    std::vector<std::string> sigs{"wbled", "mr6cG", "mr6c", "msw3G419L", "map12e", "wbledG1", "msw5GL", "c_co2", "c_voc", "mrwl3"};
    const std::vector<std::string> NON_UPDATABLE{"msw5GL", "msw3G419L"};
    auto randomBytes = [&](size_t n) {
        Bytes b(n);
        uint64_t x = g.bits(60) * 2 + 1;
        for (auto& c: b) {
            x = x * 6364136223846793005ull + 1442695040888963407ull;
            c = uint8_t(x >> 56);
        }
        return b;
    };
    auto version = [&] {
        std::string v = std::to_string(g.below(4));
        for (int i = 0; i < 2; ++i)
            v += "." + std::to_string(g.pick(std::vector<int>{0, 1, 2, 9, 10, 11}));
        if (g.chance(100, 1000))
            v += "." + std::to_string(g.below(3));
        return v;
    };
    // --- release server
    auto http = std::make_shared<Server>();
    // kind ("fw", "boot") -> signature -> suite -> path
    std::map<std::string, std::map<std::string, std::map<std::string, std::string>>> rel;
    auto publishReleases = [&] {
        rel.clear();
        http->Texts.clear();
        http->Down.clear();
        http->Files.clear();
        for (std::string kind: {"fw", "boot"}) {
            std::string t;
            if (g.chance(300, 1000))
                t += "# releases\n";
            if (g.chance(300, 1000))
                t += "other:\n  " + sigs[0] + ":\n    " + suite + ": wrong/path/9.9.9.wbfw\n";
            t += "releases:\n";
            std::string eol = g.chance(200, 1000) ? "\r\n" : "\n";
            for (auto& s: sigs) {
                if (g.chance(100, 1000))
                    continue;
                t += "  " + s + ":" + eol;
                if (g.chance(100, 1000))
                    t += "    # comment: here" + eol;
                for (auto& u: suites) {
                    if (g.chance(unsigned((u == suite ? 0.1 : 0.5) * 1000), 1000))
                        continue;
                    File f;
                    f.Version = version();
                    std::string path = kind + "/by-signature/" + s + "/" + u + "/" + f.Version + (s[1] == '_' ? ".compfw" : ".wbfw");
                    rel[kind][s][u] = path;
                    t += "    " + u + (g.chance(100, 1000) ? " : " : ": ") + path + (g.chance(100, 1000) ? " " : "") + eol;
                    if (g.chance(100, 1000))
                        t += eol;
                    size_t n = g.weighted({6, 2, 2, 1}) == 0 ? g.below(1000) * 2 : g.pick(std::vector<size_t>{0, 2, 134, 136, 138, 272, 1360, 1362});
                    f.Data = randomBytes(32 + n);
                    if (g.chance(200, 1000)) // equal blocks
                        std::fill(f.Data.begin() + 32, f.Data.end(), 0xFF);
                    if (g.chance(40, 1000))
                        f.Data.resize(g.pick(std::vector<size_t>{0, 30, 33, 32 + 137, 31}));
                    f.Fails = g.chance(50, 1000);
                    http->Files[BASE + path] = f;
                }
            }
            if (g.chance(300, 1000))
                t += "footer:\n  " + sigs[1] + ":\n    " + suite + ": wrong/path/9.9.9.wbfw\n";
            std::string url = BASE + kind + "/by-signature/release-versions.yaml";
            http->Texts[url] = t;
            if (g.chance(60, 1000))
                http->Down.insert(url);
        }
    };
    publishReleases();
    auto lookup = [&](const std::string& kind, const std::string& sig) -> std::string {
        if (http->Down.count(BASE + kind + "/by-signature/release-versions.yaml"))
            return "";
        auto s = rel[kind].find(sig);
        if (s == rel[kind].end() || !s->second.count(suite))
            return "";
        return BASE + s->second[suite];
    };

    // --- line
    auto base = std::make_shared<SimPort>("port");
    base->DrainOnWrite = true;
    auto port = std::make_shared<TFeaturePort>(base, tcp);
    TSerialPortConnectionSettings applied;
    int settingsDepth = 0;
    base->OnApply = [&](const TSerialPortConnectionSettings& s) {
        applied = s;
        ++settingsDepth;
    };
    base->OnReset = [&] { settingsDepth = 0; };

    std::vector<std::shared_ptr<Device>> devs;
    size_t nd = size_t(g.irange(1, 2));
    for (size_t i = 0; i < nd; ++i) {
        auto d = std::make_shared<Device>();
        d->Id = unsigned(g.irange(1, 247));
        if (i && devs[0]->Id == d->Id)
            d->Id = d->Id % 247 + 1;
        d->Slave.Id = d->Id;
        d->Slave.Tcp = tcp;
        d->Slave.Port = base.get();
        d->Slave.Seed = g.bits(60);
        d->Sig = g.pick(sigs);
        if (g.chance(20, 1000))
            d->Sig = "";
        d->Fw = version();
        d->Boot = version().substr(0, 7);
        if (d->Boot.back() == '.')
            d->Boot.pop_back();
        d->Model = g.pick(std::vector<std::string>{"WB-LED", "WBMR6C", "WB-MAP12E fw2", "WB-MSW v.4", "WBMR\x02"
                                                                                                 "6"});
        d->GarbageSig = g.chance(30, 1000);
        d->GarbageFw = g.chance(40, 1000);
        d->GarbageBoot = g.chance(40, 1000);
        d->HasExModel = g.chance(800, 1000);
        d->HasModel = g.chance(900, 1000);
        d->HasBoot = g.chance(900, 1000);
        d->HasPresence = g.chance(700, 1000);
        d->Preserve = int(g.weighted({5, 1, 3}));
        d->InBootloader = g.chance(150, 1000);
        d->SilentReboot = g.chance(400, 1000);
        d->Dead = g.chance(40, 1000);
        for (int n = 0; n < 8; ++n)
            if (g.chance(200, 1000)) {
                Component c{n, g.pick(std::vector<std::string>{"c_co2", "c_voc", "mrwl3"}), version(), "Sensor " + std::to_string(n)};
                c.Unavailable = g.chance(150, 1000);
                d->Comps.push_back(c);
            }
        d->Fill();
        devs.push_back(d);
    }

    // --- handler
    Runner runner;
    RpcServerStub rpc;
    std::deque<std::shared_ptr<Task>> queue;
    std::shared_ptr<Task> pending; // is being issued
    std::shared_ptr<Task> active;  // is being executed
    std::vector<Entry> errors;     // model of the state between requests
    Json::Value published;
    published["devices"] = Json::Value(Json::arrayValue);
    std::vector<Json::Value> activePublished;
    bool interesting = false;
    size_t flashed = 0, failed = 0, infos = 0;

    auto ourEntry = [&](const Json::Value& e) {
        auto& s = active->Steps[active->Cur];
        return e["slave_id"].asInt() == int(active->Dev->Id) && e["type"].asString() == s.Type &&
               (e["component_number"].isNull() ? -1 : e["component_number"].asInt()) == s.Comp;
    };
    auto state = std::make_shared<TFwUpdateState>(
        [&](const std::string& topic, const std::string& payload, bool retain) {
            PBT_EQ(topic, TOPIC, "topic of the state");
            PBT_CHECK(retain, "the state is not retained");
            Json::CharReaderBuilder b;
            std::string err;
            std::istringstream ss(payload);
            Json::Value v;
            PBT_CHECK(Json::parseFromStream(b, ss, &v, &err), "the state is not JSON: " << payload);
            published = v;
            if (g.replaying())
                g.note(std::string() + "  state " + payload);
            if (!active || active->Ph == READ || active->Cur >= active->Steps.size() || active->Broken)
                return;
            auto& s = active->Steps[active->Cur];
            for (auto& e: v["devices"])
                if (ourEntry(e) && e["error"].isNull()) {
                    int p = e["progress"].asInt();
                    PBT_CHECK(p >= 0 && p <= 100, "progress " << payload);
                    PBT_CHECK(active->LastProgress < 0 || p >= active->LastProgress, "the progress goes back from " << active->LastProgress << ": " << payload);
                    PBT_EQ(e["from_version"].asString(), s.From, "from_version in " << payload);
                    PBT_EQ(e["to_version"].asString(), s.F->Version, "to_version in " << payload);
                    PBT_EQ(e["port"]["path"].asString(), std::string("/dev/port"), "port in " << payload);
                    PBT_EQ(e["protocol"].asString(), std::string(tcp ? "modbus-tcp" : "modbus"), "protocol in " << payload);
                    if (s.Comp >= 0)
                        PBT_EQ(e["component_model"].asString(), s.CompModel, "component_model in " << payload);
                    size_t n = s.F->Good() ? s.Blocks() : 0;
                    int done = active->Ph == DONE ? 100 : active->Ph == BLOCK && n ? int(active->Block * 100 / n) : 0;
                    PBT_CHECK(p <= done, "progress " << p << " is reported, but " << active->Block << " blocks of " << n << " are written: " << payload);
                    active->LastProgress = p;
                }
        },
        TOPIC);
    auto handler = FwHandlerTest::Make(runner, http, state, suite);
    FwHandlerTest::Register(*handler, rpc.Server);
    TSerialClientDeviceAccessHandler access(nullptr);
    std::list<PSerialDevice> noDevices;

    runner.On = [&](const Json::Value& request, PSerialClientTask t) {
        PBT_CHECK(pending && !pending->T, "an unexpected task is started");
        PBT_EQ(request["path"].asString(), std::string("/dev/port"), "port of the task");
        pending->T = t;
        queue.push_back(pending);
    };

    // --- model of the task
    auto file = [&](const std::string& url) -> const File* { return &http->Files.at(url); };
    auto addStep = [&](Task& t, const std::string& kind, const std::string& sig, Step s) {
        s.Url = lookup(kind, sig);
        if (s.Url.empty())
            return false;
        s.F = file(s.Url);
        t.Steps.push_back(s);
        return true;
    };
    auto goodSig = [&](Task& t) { return t.Dev->GarbageSig ? std::string() : t.I.Sig; };
    auto delivered = [&](Task& t, const Component& c) { return t.I.Presence && !c.Unavailable && t.I.CompParts[c.Num] == 7; };
    auto planComponents = [&](Task& t) {
        for (auto& c: t.Dev->Comps)
            if (delivered(t, c)) {
                auto url = lookup("fw", c.Sig);
                if (!url.empty() && file(url)->Version != c.Ver)
                    addStep(t, "fw", c.Sig, Step{"component", c.Num, c.Model, c.Ver});
            }
    };
    // what has to be done, once the device has told about itself
    auto plan = [&](Task& t) {
        if (t.Planned)
            return;
        t.Planned = true;
        std::string sig = goodSig(t);
        std::string fw = t.I.Fw, boot = t.I.Boot;
        if (t.Kind == "Restore") {
            t.LookupFailed = !addStep(t, "fw", sig, Step{"firmware"});
        } else if (t.Type == "firmware") {
            Step s{"firmware", -1, "", fw};
            s.Reboot = true;
            t.LookupFailed = !addStep(t, "fw", sig, s);
            if (!t.LookupFailed)
                planComponents(t);
        } else if (t.Type == "bootloader") {
            Step s{"bootloader", -1, "", boot};
            s.Reboot = true;
            t.LookupFailed = !addStep(t, "boot", sig, s);
            if (!t.LookupFailed)
                t.LookupFailed = !addStep(t, "fw", sig, Step{"firmware"}); // after the bootloader is written
        } else if (t.Type == "component")
            planComponents(t);
        else
            t.LookupFailed = true;
    };
    auto startStep = [&](Task& t) {
        t.Block = 0;
        t.Attempt = 0;
        t.RetryOfWritten = false;
        t.LastProgress = -1;
        if (t.Cur < t.Steps.size())
            t.Ph = t.Steps[t.Cur].Reboot ? REBOOT : INFO;
        else
            t.Ph = DONE;
    };
    auto finishStep = [&](Task& t, bool ok) {
        t.Results.push_back(ok);
        if (!ok && t.Steps[t.Cur].Type != "component")
            t.Steps.resize(t.Cur + 1); // nothing follows
    };
    // steps that can't be started
    auto skipUnavailable = [&](Task& t) {
        while (t.Cur < t.Steps.size() && t.Results.size() == t.Cur && !t.Steps[t.Cur].F->Good()) {
            finishStep(t, false);
            ++t.Cur;
            startStep(t);
        }
    };
    auto nextStep = [&](Task& t, bool ok) {
        finishStep(t, ok);
        t.Ph = DONE; // the entry is still about this step
    };
    // called before the next write
    auto proceed = [&](Task& t) {
        if (t.Ph == READ) {
            plan(t);
            startStep(t);
            skipUnavailable(t);
        } else if (t.Ph == DONE && t.Cur < t.Steps.size()) {
            ++t.Cur;
            startStep(t);
            skipUnavailable(t);
        }
    };

    Device* current = nullptr;
    auto busyProbe = [&](const char* method) {
        Json::Value r;
        r["slave_id"] = active->Dev->Id;
        r["port"]["path"] = "/dev/port";
        auto c = rpc.Call(std::string("fw-update/") + method, r);
        PBT_CHECK(c->Answers == 1 && !c->Ok, method << " is accepted while a device is being flashed");
    };
    for (auto& dp: devs) {
        Device* d = dp.get();
        d->Slave.OnRequest = [&, d](const ModbusRequest& r) -> Fault {
            PBT_CHECK(active, "a request without a task: " << r.Str());
            Task& t = *active;
            PBT_CHECK(d == t.Dev, "slave " << d->Id << " is accessed by the task of slave " << t.Dev->Id << ": " << r.Str());
            PBT_CHECK(settingsDepth > 0 && sameSettings(applied, t.Settings), "the line has " << applied.BaudRate << applied.Parity << ", asked for " << t.Settings.BaudRate);
            if (g.replaying())
                g.note(std::string() + "  " + r.Str().substr(0, 100));
            auto& sl = d->Slave;
            sl.ExceptionCode = g.pick(std::vector<unsigned>{1, 2, 3, 6, 8});
            bool longWait = r.Addr == 0x1000 || r.Fn == 6;
            sl.AnswerNs = g.irange(1, longWait && g.chance(300, 1000) ? 900 : g.chance(100, 1000) ? 450 : 5) * MS;
            if (d->Dead)
                return Fault::Timeout;
            PBT_CHECK(sim::nowNs() >= d->DeafTill, "the device is written to " << (d->DeafTill - sim::nowNs()) / MS << " ms before it is ready: " << r.Str());
            auto anyFault = [&](double p) {
                if (!g.chance(unsigned((p) * 1000), 1000))
                    return Fault::None;
                return g.pick(std::vector<Fault>{Fault::Timeout, Fault::Timeout, Fault::LostAnswer, Fault::LostAnswer, Fault::Exception, Fault::BadCrc,
                                                 Fault::WrongFunction, Fault::WrongSlave});
            };
            if (!r.IsWrite()) {
                PBT_CHECK(t.Ph == READ, "reads after the flashing has started: " << r.Str());
                bool ok = d->Readable(r);
                if (!ok) {
                    if (g.chance(300, 1000))
                        return Fault::Timeout;
                    return Fault::Exception;
                }
                auto f = anyFault(0.01);
                if (f == Fault::BadCrc || f == Fault::LostAnswer)
                    f = Fault::Timeout;
                if (f != Fault::None)
                    return f;
                auto& i = t.I;
                if (r.Fn == 3 && r.Addr == 290) {
                    PBT_EQ(r.Count, 12u, "registers of the signature");
                    i.SigRead = true;
                    i.Sig = d->Sig;
                } else if (r.Fn == 3 && r.Addr == 250) {
                    PBT_EQ(r.Count, 16u, "registers of the version");
                    i.Fw = d->GarbageFw ? "" : d->Fw;
                } else if (r.Fn == 3 && r.Addr == 330) {
                    PBT_EQ(r.Count, 7u, "registers of the bootloader version");
                    i.Boot = d->GarbageBoot ? "" : d->Boot;
                } else if (r.Fn == 3 && r.Addr == 200) {
                    i.ModelRead = true;
                    i.Model = d->Model.substr(0, r.Count);
                } else if (r.Fn == 3 && r.Addr == 131)
                    i.Preserve = d->Preserve == 0;
                else if (r.Fn == 2)
                    i.Presence = true;
                else if (r.Fn == 4) {
                    for (auto& c: d->Comps) {
                        unsigned o = unsigned(c.Num) * 48;
                        if (r.Addr == 64788 + o)
                            i.CompParts[c.Num] |= 1;
                        if (r.Addr == 64800 + o)
                            i.CompParts[c.Num] |= 2;
                        if (r.Addr == 64768 + o)
                            i.CompParts[c.Num] |= 4;
                    }
                }
                return Fault::None;
            }
            // --- writes
            PBT_CHECK(t.Kind != "GetFirmwareInfo", "GetFirmwareInfo writes to the device: " << r.Str());
            PBT_CHECK(t.I.SigRead, "the device is written to, though its signature is not known: " << r.Str());
            PBT_CHECK(t.Call->Answers == 1 && t.Call->Ok, "the request is not answered before the flashing");
            if (t.Ph == READ || t.Ph == DONE)
                proceed(t);
            PBT_CHECK(t.Cur < t.Steps.size() && t.Ph != DONE, "nothing has to be written any more: " << r.Str().substr(0, 80));
            auto& s = t.Steps[t.Cur];
            // the state shows the step
            bool shown = false;
            for (auto& e: published["devices"])
                if (ourEntry(e)) {
                    shown = true;
                    PBT_CHECK(e["error"].isNull(), "an old error is shown during the flashing: " << jsonText(published));
                    if (t.Ph == BLOCK && s.Blocks()) {
                        int done = int(t.Block * 100 / s.Blocks());
                        PBT_CHECK(e["progress"].asInt() >= done - 4, t.Block << " blocks of " << s.Blocks() << " are written, the progress is " << e["progress"].asInt());
                    }
                }
            PBT_CHECK(shown, "the flashing of " << s.Type << " is not shown in the state: " << jsonText(published));
            if (g.chance(20, 1000))
                busyProbe(g.pick(std::vector<const char*>{"Update", "Restore", "GetFirmwareInfo"}));
            auto f = Fault::None;
            auto performed = [&] { return f == Fault::None || f == Fault::LostAnswer || f == Fault::BadCrc; };
            if (g.chance(4, 1000)) { // the port breaks
                t.Broken = true;
                base->IoError = true;
                interesting = true;
            }
            if (t.Ph == REBOOT) {
                PBT_CHECK(r.Fn == 6 && r.Addr == (t.I.Preserve ? 131u : 129u) && r.Data == Bytes({0, 1}),
                          "has to reboot to the bootloader with register " << (t.I.Preserve ? 131 : 129) << ", but " << r.Str().substr(0, 80));
                f = anyFault(0.04);
                if (!t.I.Preserve && d->SilentReboot && f == Fault::None)
                    f = Fault::LostAnswer;
                if (d->InBootloader) // nothing to reboot
                    f = g.chance(500, 1000) ? Fault::Timeout : Fault::Exception;
                if (performed()) {
                    d->InBootloader = true;
                    bool answers = f == Fault::None || f == Fault::BadCrc;
                    d->DeafTill = sim::nowNs() + (answers ? sl.AnswerNs : 0) + g.irange(0, 480) * MS;
                }
                if (f == Fault::None || (!t.I.Preserve && (f == Fault::Timeout || f == Fault::LostAnswer)))
                    t.Ph = INFO;
                else
                    nextStep(t, false);
                return f;
            }
            PBT_EQ(r.Fn, 16u, "function, " << r.Str().substr(0, 80));
            if (t.Ph == INFO) {
                PBT_CHECK(r.Addr == 0x1000 && r.Count == 16, "the information block has to be written, but " << r.Str().substr(0, 80));
                PBT_CHECK(r.Data == Bytes(s.F->Data.begin(), s.F->Data.begin() + 32),
                          "the information block isn't the one of " << s.Url << ": " << hex(r.Data) << ", has to be " << hex(Bytes(s.F->Data.begin(), s.F->Data.begin() + 32)));
                f = anyFault(0.03);
                if (f == Fault::Exception && g.chance(300, 1000))
                    sl.ExceptionCode = 4;
                if (s.Comp < 0 && !d->InBootloader) { // the firmware doesn't take firmware
                    f = Fault::Exception;
                    label("refused by the firmware");
                }
                if (f == Fault::None) {
                    t.Ph = BLOCK;
                    t.Block = 0;
                    t.Attempt = 0;
                } else
                    nextStep(t, false);
            } else {
                PBT_CHECK(r.Addr == 0x2000, "block " << t.Block << " of " << s.Url << " has to be written, but " << r.Str().substr(0, 80));
                PBT_CHECK(t.Block < s.Blocks(), "more is written than there is in " << s.Url << ": " << r.Str());
                auto b = s.Block(t.Block);
                PBT_CHECK(r.Data == b, "block " << t.Block << " of " << s.Url << " has to be " << hex(b) << ", but is " << hex(r.Data));
                if (t.RetryOfWritten) {
                    f = Fault::Exception;
                    sl.ExceptionCode = 4;
                    label("block is already written");
                } else
                    f = anyFault(t.Attempt ? 0.35 : 0.02);
                if (f == Fault::LostAnswer || f == Fault::BadCrc)
                    t.RetryOfWritten = true;
                if (f == Fault::None || (f == Fault::Exception && sl.ExceptionCode == 4)) {
                    ++t.Block;
                    t.Attempt = 0;
                    t.RetryOfWritten = false;
                } else if (++t.Attempt == 3)
                    nextStep(t, false);
                if (t.Ph == BLOCK && t.Attempt)
                    label("block retried");
            }
            if (t.Broken) {
                if (t.Ph != DONE)
                    nextStep(t, false);
                return f;
            }
            if (t.Ph == BLOCK && t.Block == s.Blocks()) {
                // the device has the whole image
                ++flashed;
                if (s.Blocks() > 1)
                    interesting = true;
                label(s.Type == "firmware" ? "firmware written" : s.Type == "bootloader" ? "bootloader written" : "component written");
                if (s.Type == "bootloader") {
                    d->Boot = s.F->Version.substr(0, 7);
                    d->DeafTill = sim::nowNs() + sl.AnswerNs + g.irange(0, 1900) * MS;
                } else if (s.Type == "firmware") {
                    d->Fw = s.F->Version;
                    d->InBootloader = false;
                    d->GarbageFw = false;
                } else
                    for (auto& c: d->Comps)
                        if (c.Num == s.Comp)
                            c.Ver = s.F->Version;
                d->Fill();
                nextStep(t, true);
            }
            return f;
        };
    }
    (void)current;
    base->OnWrite = [&](const Bytes& q) {
        size_t at = tcp ? 6 : 0;
        PBT_CHECK(q.size() > at, "short request " << hex(q));
        for (auto& d: devs)
            if (d->Id == q[at]) {
                d->Slave.Handle(q);
                return;
            }
        PBT_FAIL("a request to a slave that nobody asked about: " << hex(q));
    };

    auto has = [&](const Entry& e) { return std::find_if(errors.begin(), errors.end(), [&](const Entry& x) { return !(x < e) && !(e < x); }); };
    auto checkState = [&](const std::string& when) {
        std::vector<Entry> left = errors;
        for (auto& e: published["devices"]) {
            Entry k{unsigned(e["slave_id"].asInt()), e["type"].asString(), e["component_number"].isNull() ? -1 : e["component_number"].asInt()};
            auto it = std::find_if(left.begin(), left.end(), [&](const Entry& x) { return !(x < k) && !(k < x); });
            PBT_CHECK(it != left.end(), when << ": the state has an entry of " << k.Str() << ", it has to be without it: " << jsonText(published));
            PBT_CHECK(!e["error"].isNull(), when << ": nothing is being updated, but the state tells of " << k.Str() << ": " << jsonText(published));
            PBT_CHECK(e["error"]["id"].asString() == "com.wb.serial_driver.generic_error", "error in " << jsonText(published));
            if (it->To != "?") {
                PBT_EQ(e["to_version"].asString(), it->To, "to_version in " << jsonText(published));
                PBT_EQ(e["from_version"].asString(), it->From, "from_version in " << jsonText(published));
            }
            left.erase(it);
        }
        PBT_CHECK(left.empty(), when << ": the error of " << left[0].Str() << " is not in the state: " << jsonText(published));
    };

    auto finish = [&](Task& t) {
        auto& c = *t.Call;
        PBT_EQ(c.Answers, 1u, "answers to " << c.Method << " " << jsonText(c.Request));
        PBT_EQ(settingsDepth, 0, "the line settings are not restored after " << c.Method);
        if (!t.I.SigRead) {
            if (t.Kind == "Restore")
                PBT_CHECK(c.Ok, "Restore of a device that doesn't tell its signature has to do nothing: " << c.Message);
            else
                PBT_CHECK(!c.Ok && c.Code == -32000 && !c.Message.empty(), c.Method << " of a device that doesn't answer is successful");
            return;
        }
        if (t.Kind == "GetFirmwareInfo") {
            PBT_CHECK(c.Ok, "the device has told its signature, but the answer is " << c.Message);
            ++infos;
            Json::Value e;
            std::string sig = goodSig(t);
            std::string model = t.I.ModelRead ? t.I.Model : "";
            model.erase(std::remove(model.begin(), model.end(), '\x02'), model.end());
            e["fw"] = t.I.Fw;
            e["bootloader"] = t.I.Boot;
            e["model"] = model;
            e["available_fw"] = e["available_bootloader"] = "";
            e["can_update"] = e["fw_has_update"] = e["bootloader_has_update"] = false;
            e["components"] = Json::Value(Json::objectValue);
            if (!sig.empty() && std::find(NON_UPDATABLE.begin(), NON_UPDATABLE.end(), sig) == NON_UPDATABLE.end()) {
                auto f = lookup("fw", sig), b = lookup("boot", sig);
                auto newer = [](const std::string& cur, const std::string& av) { return !cur.empty() && cmpVersions(av, cur) > 0; };
                if (!f.empty()) {
                    e["available_fw"] = file(f)->Version;
                    e["fw_has_update"] = newer(t.I.Fw, file(f)->Version);
                }
                if (!b.empty()) {
                    e["available_bootloader"] = file(b)->Version;
                    e["bootloader_has_update"] = newer(t.I.Boot, file(b)->Version);
                }
                e["can_update"] = !f.empty() || !b.empty();
                for (auto& k: t.Dev->Comps) {
                    auto u = lookup("fw", k.Sig);
                    if (!delivered(t, k) || u.empty())
                        continue;
                    Json::Value x;
                    x["model"] = k.Model;
                    x["fw"] = k.Ver;
                    x["available_fw"] = file(u)->Version;
                    x["has_update"] = file(u)->Version != k.Ver;
                    e["components"][std::to_string(k.Num)] = x;
                }
            }
            PBT_EQ(jsonText(c.Result), jsonText(e), "firmware information");
            return;
        }
        // Update and Restore
        plan(t);
        if (t.Ph == READ)
            startStep(t);
        // steps that need no access
        for (;;) {
            if (t.Ph == DONE && t.Cur < t.Steps.size() && t.Results.size() > t.Cur) {
                ++t.Cur;
                startStep(t);
            }
            if (t.Cur >= t.Steps.size())
                break;
            if (t.Steps[t.Cur].F->Good() && !t.Broken)
                break;
            nextStep(t, false);
        }
        if (t.Cur < t.Steps.size()) {
            auto& s = t.Steps[t.Cur];
            PBT_FAIL("the update stops at " << s.Type << " " << s.Url << ", block " << t.Block << " of " << s.Blocks() << ", attempt " << t.Attempt
                                            << (t.Ph == REBOOT ? ", before the reboot" : t.Ph == INFO ? ", before the information block" : "") << ": " << jsonText(published));
        }
        bool all = true;
        for (size_t k = 0; k < t.Results.size(); ++k) {
            auto& s = t.Steps[k];
            Entry e{t.Dev->Id, s.Type, s.Comp, true, s.From, s.F->Version};
            auto it = has(e);
            if (it != errors.end())
                errors.erase(it);
            if (!t.Results[k]) {
                errors.push_back(e);
                ++failed;
                label(s.Type == "firmware" ? "firmware failed" : s.Type == "bootloader" ? "bootloader failed" : "component failed");
                if (s.Type != "component")
                    all = false;
                if (t.Block || s.F->Good())
                    interesting = true;
            }
        }
        if (t.LookupFailed && all) {
            label("no release");
            if (c.Ok) { // the error has to be shown
                std::string type = t.Type == "bootloader" && !t.Steps.empty() ? "" : t.Type;
                bool shown = false;
                for (auto& x: published["devices"]) {
                    Entry k{unsigned(x["slave_id"].asInt()), x["type"].asString(), -1, true, "?", "?"};
                    if (k.Slave == t.Dev->Id && !x["error"].isNull() && (type.empty() ? k.Type == "bootloader" || k.Type == "firmware" : k.Type == type)) {
                        shown = true;
                        if (has(k) == errors.end())
                            errors.push_back(k);
                        else
                            *has(k) = k;
                    }
                }
                PBT_CHECK(shown, c.Method << " " << jsonText(c.Request) << " can't be performed (nothing is released for \"" << goodSig(t)
                                          << "\"), but is answered with Ok and the state is " << jsonText(published));
            }
        } else
            PBT_CHECK(c.Ok, c.Method << " is answered with an error: " << c.Message);
        checkState("after " + c.Method);
    };

    auto run = [&] {
        active = queue.front();
        queue.pop_front();
        base->IoError = false;
        if (g.chance(100, 1000))
            base->Close();
        base->OpenFails = g.chance(50, 1000);
        bool can = base->IsOpen() || !base->OpenFails;
        active->T->Run(port, access, noDevices);
        base->IoError = false;
        auto t = active;
        if (t->Broken)
            base->Rx.clear(); // the answer is lost
        if (!can) {
            PBT_CHECK(t->Call->Answers == 1 && !t->Call->Ok, "the port can't be opened, but " << t->Call->Method << " is successful");
            PBT_EQ(settingsDepth, 0, "the line settings are not restored");
        } else
            finish(*t);
        active.reset();
        base->OpenFails = false;
        sim::advanceNs(g.irange(1, 3000) * MS);
        for (auto& d: devs)
            d->DeafTill = 0;
        checkState("after " + t->Call->Method);
    };
    auto lockTaken = [&] {
        for (auto& q: queue)
            if (q->Kind != "GetFirmwareInfo")
                return true;
        return false;
    };

    int n = int(g.size(1, 6));
    for (int k = 0; k < n; ++k) {
        auto kind = g.weighted({3, 6, 3, 2, 2, 2});
        auto t = std::make_shared<Task>();
        auto& d = *g.pick(devs);
        t->Dev = &d;
        Json::Value r;
        r["slave_id"] = d.Id;
        r["port"]["path"] = "/dev/port";
        if (tcp)
            r["protocol"] = "modbus-tcp";
        else if (g.flip())
            r["protocol"] = "modbus";
        if (g.flip()) {
            r["port"]["baud_rate"] = t->Settings.BaudRate = g.pick(std::vector<int>{9600, 115200, 19200});
            t->Settings.Parity = g.pick(std::vector<char>{'N', 'E', 'O'});
            r["port"]["parity"] = std::string(1, t->Settings.Parity);
            r["port"]["data_bits"] = t->Settings.DataBits = 8;
            r["port"]["stop_bits"] = t->Settings.StopBits = g.irange(1, 2);
        }
        t->Type = "firmware";
        if (kind == 1) {
            t->Type = g.pick(std::vector<std::string>{"firmware", "firmware", "firmware", "bootloader", "bootloader", "component", "component", "config"});
            if (t->Type == "config" && !g.chance(200, 1000))
                t->Type = "firmware";
            if (t->Type != "firmware" || g.flip())
                r["type"] = t->Type;
        }
        if (kind <= 2) {
            t->Kind = kind == 0 ? "GetFirmwareInfo" : kind == 1 ? "Update" : "Restore";
            if (g.replaying())
                g.note(t->Kind + " " + jsonText(r));
            bool busy = kind != 0 && lockTaken();
            pending = t;
            t->Call = rpc.Call("fw-update/" + t->Kind, r);
            pending.reset();
            if (busy) {
                PBT_CHECK(!t->T && t->Call->Answers == 1 && !t->Call->Ok, t->Kind << " is accepted while another update is in progress");
                label("busy");
            } else
                PBT_CHECK(t->T, t->Kind << " " << jsonText(r) << " is refused: " << t->Call->Message);
            if (g.chance(150, 1000))
                continue; // runs later
        } else if (kind == 3) { // malformed
            auto bad = g.below(5);
            if (bad == 0)
                r.removeMember("slave_id");
            else if (bad == 1)
                r["slave_id"] = g.pick(std::vector<int>{-1, 256, 1000});
            else if (bad == 2)
                r.removeMember("port");
            else if (bad == 3)
                r["port"]["path"] = "";
            else
                r["slave_id"] = std::to_string(d.Id);
            auto c = rpc.Call(std::string("fw-update/") + g.pick(std::vector<const char*>{"GetFirmwareInfo", "Update", "Restore", "ClearError"}), r);
            PBT_CHECK(c->Answers == 1 && !c->Ok && queue.size() == size_t(std::count_if(queue.begin(), queue.end(), [](auto& q) { return bool(q->T); })),
                      c->Method << " " << jsonText(r) << " is accepted");
        } else if (kind == 4) {
            while (!queue.empty())
                run();
            std::string type = g.pick(std::vector<std::string>{"firmware", "firmware", "bootloader", "component"});
            if (type != "firmware" || g.flip())
                r["type"] = type;
            if (g.replaying())
                g.note("ClearError " + jsonText(r));
            auto c = rpc.Call("fw-update/ClearError", r);
            PBT_CHECK(c->Answers == 1 && c->Ok, "ClearError: " << c->Message);
            size_t before = errors.size();
            errors.erase(std::remove_if(errors.begin(), errors.end(), [&](const Entry& e) { return e.Slave == d.Id && e.Type == type; }), errors.end());
            labelIf(before != errors.size(), "error cleared");
            checkState("after ClearError");
        } else { // new releases: everything that is cached is out of date
            while (!queue.empty())
                run();
            sim::advanceNs(int64_t(2 * 3600 + 1) * 1000 * MS);
            publishReleases();
            for (auto& x: devs)
                x->Dead = g.chance(40, 1000);
        }
        while (!queue.empty())
            run();
    }
    while (!queue.empty())
        run();
    // nothing is left in progress: the device can be asked and updated again
    for (auto& d: devs) {
        for (std::string m: {"GetFirmwareInfo", "Update"}) {
            auto t = std::make_shared<Task>();
            t->Dev = d.get();
            t->Kind = m;
            t->Type = "firmware";
            Json::Value r;
            r["slave_id"] = d->Id;
            r["port"]["path"] = "/dev/port";
            if (tcp)
                r["protocol"] = "modbus-tcp";
            pending = t;
            t->Call = rpc.Call("fw-update/" + m, r);
            pending.reset();
            PBT_CHECK(t->T, m << " is refused though nothing is in progress: " << t->Call->Message);
            run();
        }
    }
    labelIf(tcp, "TCP");
    if (interesting)
        nontrivial();
    if (wantSample())
        sample(std::to_string(rpc.Calls.size()) + " requests, " + std::to_string(flashed) + " images written, " + std::to_string(failed) + " failed, " + std::to_string(infos) + " informed");
}
