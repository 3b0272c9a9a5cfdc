// Q01: requests of other programs to ports (port/Load, port/Setup, port/Scan, device/Probe) do exactly what they ask
// for, are answered exactly once with what the line answered, and polling goes on undisturbed.
//
// One case: the MQTT driver with a port and polled Modbus devices in virtual time, other slaves on the line, and a
// history of requests: between cycles, while the client waits, while a poll request is on the line.
#include "rpcworld.h"
#include <sstream>
using namespace pbt;
using std::chrono::milliseconds;

const char* PROPERTY_ID = "Q01";
const char* NONTRIVIAL_RULE =
    "one case = a port with polled devices, other slaves and a history of RPC requests. Non-trivial: at least two requests were answered with data "
    "of the line, and one was refused, expired, failed, or was issued while the client was polling";

namespace
{
    const int64_t MS = 1000000;
    using Bytes = std::vector<uint8_t>;

    struct WbDevice // what the scan and the probe tell about a device
    {
        unsigned Slave = 0;
        uint32_t Sn = 0;
        std::string Model, FwSig, FwVer;
        unsigned Baud = 96, Parity = 0, Stop = 1;
        bool ExModel = true;                          // has 20 registers of the model
        std::map<unsigned, std::pair<int, int>> Bad;  // address (200 + 1000 for short model) -> exception code or 0, times lost
        std::map<unsigned, unsigned> Tries;           // during the request
    };

    // the request in the simulator's hands
    struct Exp
    {
        std::shared_ptr<RpcCall> Call;
        std::string Kind;
        int64_t ExpireAt = 0;
        bool Valid = true;
        unsigned Frames = 0;
        std::function<void(const Bytes&)> OnFrame;
        std::function<void(RpcCall&)> OnAnswer;
        bool OpenFails = false;
        std::string Str;
    };

    // a Modbus slave performs the request
    Bytes perform(ModbusSlave& s, const Bytes& p, unsigned exception)
    {
        unsigned fn = p[0];
        if (exception)
            return {uint8_t(fn | 0x80), uint8_t(exception)};
        unsigned addr = p[1] << 8 | p[2], count = p[3] << 8 | p[4];
        Bytes a{uint8_t(fn)};
        auto readRegs = [&](ModbusSlave::Table t) {
            a.push_back(uint8_t(count * 2));
            for (unsigned i = 0; i < count; ++i)
                ref::be16(a, s.Get(t, addr + i));
        };
        switch (fn) {
            case 1:
            case 2: {
                Bytes d((count + 7) / 8, 0);
                for (unsigned i = 0; i < count; ++i)
                    if (s.Get(fn == 1 ? ModbusSlave::COIL : ModbusSlave::DISCRETE, addr + i))
                        d[i / 8] |= uint8_t(1 << (i % 8));
                a.push_back(uint8_t(d.size()));
                a.insert(a.end(), d.begin(), d.end());
                break;
            }
            case 3:
                readRegs(ModbusSlave::HOLDING);
                break;
            case 4:
                readRegs(ModbusSlave::INPUT);
                break;
            case 5:
                s.Set(ModbusSlave::COIL, addr, p[3] ? 1 : 0);
                a = p;
                break;
            case 6:
                s.Set(ModbusSlave::HOLDING, addr, uint16_t(count));
                a = p;
                break;
            case 15:
                for (unsigned i = 0; i < count; ++i)
                    s.Set(ModbusSlave::COIL, addr + i, (p[6 + i / 8] >> (i % 8)) & 1);
                a.assign(p.begin(), p.begin() + 5);
                break;
            case 16:
                for (unsigned i = 0; i < count; ++i)
                    s.Set(ModbusSlave::HOLDING, addr + i, uint16_t(p[6 + 2 * i] << 8 | p[7 + 2 * i]));
                a.assign(p.begin(), p.begin() + 5);
                break;
            case 23: {
                unsigned wa = p[5] << 8 | p[6], wc = p[7] << 8 | p[8];
                for (unsigned i = 0; i < wc; ++i)
                    s.Set(ModbusSlave::HOLDING, wa + i, uint16_t(p[10 + 2 * i] << 8 | p[11 + 2 * i]));
                readRegs(ModbusSlave::HOLDING);
                break;
            }
        }
        return a;
    }

    Bytes rtu(unsigned slave, const Bytes& pdu)
    {
        Bytes f{uint8_t(slave)};
        f.insert(f.end(), pdu.begin(), pdu.end());
        ref::appendCrc(f);
        return f;
    }
    Bytes tcp(unsigned tid, unsigned slave, const Bytes& pdu)
    {
        Bytes f;
        ref::be16(f, tid);
        ref::be16(f, 0);
        ref::be16(f, unsigned(pdu.size() + 1));
        f.push_back(uint8_t(slave));
        f.insert(f.end(), pdu.begin(), pdu.end());
        return f;
    }
    std::string hexLower(const Bytes& b)
    {
        std::string s;
        for (auto x: b) {
            char t[4];
            snprintf(t, sizeof t, "%02x", x);
            s += t;
        }
        return s;
    }
    std::string asText(const Bytes& b)
    {
        return std::string(b.begin(), b.end());
    }
}

void property(Gen& g)
{
    bool tcpPort = g.chance(1, 4);         // a gateway reached by TCP
    bool modbusTcp = tcpPort && g.flip();  // it speaks Modbus TCP
    uint64_t byteNs = tcpPort ? 1145833 : g.pick({uint64_t(95486), uint64_t(1145833)});
    World w(byteNs);
    w.Base->DrainOnWrite = true;
    w.Base->Description = tcpPort ? "192.168.1.7:502" : "/dev/ttyRS485-1";
    w.Port = std::make_shared<TFeaturePort>(w.Base, modbusTcp);
    int minTimeout = g.pick({-1, -1, 0, 100, 700});
    w.Port->SetMinimalResponseTimeout(milliseconds(minTimeout));
    w.OpenClose.ReopenTimeout = milliseconds(1000);
    auto now = [] { return sim::nowNs(); };
    FILE* trace = getenv("Q01_TRACE") ? fopen(getenv("Q01_TRACE"), "w") : nullptr; // for debugging
    auto log = [&](const std::string& s) {
        if (trace) {
            fprintf(trace, "%lld us %s\n", (long long)(now() / 1000), s.c_str());
            fflush(trace);
        }
    };
    if (trace) {
        ::Debug.SetEnabled(true);
        WBMQTT::TLogger::Sink() = [&](const std::string& p, const std::string& m) { log(p + m); };
    }
    // --- polled devices
    static SimProtocol rtuProtocol("modbus"), tcpProtocol("modbus-tcp");
    size_t nDev = 1 + g.below(2);
    auto mqtt = std::make_shared<WBMQTT::TDeviceDriver>();
    auto handlerConfig = std::make_shared<THandlerConfig>();
    auto portConfig = std::make_shared<TPortConfig>();
    portConfig->Port = w.Port;
    portConfig->OpenCloseSettings = w.OpenClose;
    std::vector<WbDevice> wb; // devices on the line that can be probed
    for (size_t i = 0; i < nDev; ++i) {
        auto& d = w.AddDevice(unsigned(1 + i * 16), g.bits());
        auto& c = *d.Config;
        d.Slave.Tcp = modbusTcp;
        d.Slave.AnswerNs = 200000;
        c.Id = "device_" + std::to_string(i);
        c.DeviceType = "Type " + std::to_string(i);
        if (g.chance(1, 4))
            c.SlaveId = i ? "0x11" : "0x01";
        c.FrameTimeout = milliseconds(2);
        c.ResponseTimeout = milliseconds(g.range(10, 100));
        TModbusDeviceConfig mc;
        mc.CommonConfig = d.Config;
        std::unique_ptr<Modbus::IModbusTraits> traits;
        if (modbusTcp)
            traits = std::make_unique<Modbus::TModbusTCPTraits>();
        else
            traits = std::make_unique<Modbus::TModbusRTUTraits>();
        d.Device = std::make_shared<TModbusDevice>(std::move(traits), mc, modbusTcp ? &tcpProtocol : &rtuProtocol);
        auto dc = std::make_shared<TSerialDeviceWithChannels>();
        dc->Device = d.Device;
        unsigned addr = unsigned(g.below(50));
        for (size_t k = 0, n = 1 + g.below(4); k < n; ++k) {
            RegSpec s;
            s.Type = g.pick({Modbus::REG_HOLDING, Modbus::REG_COIL, Modbus::REG_INPUT});
            s.Addr = addr;
            s.Format = s.IsBit() ? U8 : U16;
            addr += 1 + unsigned(g.below(8));
            w.AddRegister(int(i), s, g.chance(1, 4) ? int64_t(g.range(50, 2000)) : 0, 0);
            auto cc = std::make_shared<TDeviceChannelConfig>("value", c.Id, int(k + 1), false, "c" + std::to_string(k), std::vector<PRegister>{w.Regs.back().R});
            dc->Channels.push_back(cc);
            g.note("device " + c.SlaveId + ": " + s.Str());
        }
        if (g.flip()) {
            d.Device->SetSnRegister(TRegisterConfig::Create(Modbus::REG_HOLDING, TRegisterDesc{std::make_shared<TUint32RegisterAddress>(270), 0, 0}, U32));
            d.Slave.Set(ModbusSlave::HOLDING, 270, uint16_t(g.bits(16)));
            d.Slave.Set(ModbusSlave::HOLDING, 271, uint16_t(g.bits(16)));
        }
        portConfig->AddDevice(dc);
    }
    handlerConfig->PortConfigs.push_back(portConfig);
    handlerConfig->LowPriorityRegistersRateLimit = 10000;
    TRPCDeviceParametersCache cache;
    auto driver = std::make_shared<TMQTTSerialDriver>(mqtt, handlerConfig);
    TSerialClientTaskRunner runner(driver);
    RpcServerStub rpc;
    auto rpcConfig = std::make_shared<TRPCConfig>();
    Json::Value expectedPorts(Json::arrayValue);
    for (size_t i = 0, n = g.below(3); i < n; ++i) {
        Json::Value e;
        if (g.flip()) {
            TSerialPortSettings s("/dev/tty" + std::to_string(i), TSerialPortConnectionSettings(g.pick({9600, 115200}), g.pick({'N', 'E'}), 8, g.pick({1, 2})));
            rpcConfig->AddSerialPort(s);
            e["path"] = s.Device;
            e["baud_rate"] = s.BaudRate;
            e["data_bits"] = 8;
            e["parity"] = std::string(1, s.Parity);
            e["stop_bits"] = s.StopBits;
        } else {
            TTcpPortSettings s("10.0.0." + std::to_string(i), 1000);
            e["address"] = s.Address;
            e["port"] = 1000;
            rpcConfig->AddTCPPort(s);
        }
        expectedPorts.append(e);
    }
    auto schema = [](const std::string& name) { return repoDir() + "/wb-mqtt-serial-rpc-" + name + "-request.schema.json"; };
    TRPCPortHandler portHandler(schema("port-load"), schema("port-setup"), schema("port-scan"), rpcConfig, runner, cache, rpc.Server);
    TSerialDeviceFactory factory;
    std::string configFile;
    TRPCDeviceHandler deviceHandler(configFile, schema("device-load-config"), schema("device-load"), schema("device-set"), schema("device-probe"), schema("device-set-poll"),
                                    factory, nullptr, runner, cache, rpc.Server);
    // --- the line
    std::map<unsigned, std::unique_ptr<ModbusSlave>> others;
    auto slave = [&](unsigned id) -> ModbusSlave& {
        for (auto& d: w.Devices)
            if (d->Slave.Id == id)
                return d->Slave;
        auto& p = others[id];
        if (!p) {
            p = std::make_unique<ModbusSlave>();
            p->Id = id;
            p->Seed = id * 77777;
        }
        return *p;
    };
    std::deque<std::shared_ptr<Exp>> queue;
    bool tasks = true; // the client performs tasks, not polling
    int64_t runStart = 0;
    LineSettings line, wanted;
    int64_t cleared = 0; // time of the last flush of the port
    bool applyFails = false, resetFails = false; // of a broken line
    unsigned data = 0, interesting = 0, polls = 0;
    w.Base->OnApply = [&](const TSerialPortConnectionSettings& s) {
        if (w.Base->IoError && applyFails)
            throw std::runtime_error("can't set termios attributes");
        cleared = now();
        auto& rx = w.Base->Rx; // tcflush
        rx.erase(std::remove_if(rx.begin(), rx.end(), [&](const auto& x) { return x.AtNs <= now(); }), rx.end());
        line.Baud = s.BaudRate;
        line.Data = s.DataBits;
        line.Stop = s.StopBits;
        line.Parity = s.Parity;
    };
    w.Base->OnReset = [&] {
        if (w.Base->IoError && resetFails)
            throw std::runtime_error("can't set termios attributes");
        line = LineSettings();
    };
    w.Base->OnOpen = [&] {
        w.Base->IoError = false;
        line = LineSettings();
    };
    std::function<void()> pollHook;
    w.Base->OnWrite = [&](const Bytes& q) {
        if (tasks && !queue.empty()) {
            auto e = queue.front();
            ++e->Frames;
            log("frame of " + e->Kind + ": " + hex(q) + " settings " + line.Str());
            PBT_CHECK(e->Valid, "a request that can't be performed is sent to the line: " << e->Str << " frame " << hex(q));
            PBT_CHECK(runStart <= e->ExpireAt, "an expired request is sent to the line: " << e->Str);
            if (!tcpPort)
                PBT_CHECK(line == wanted || e->Kind == "setup", e->Str << ": the frame is sent with settings " << line.Str() << ", requested are " << wanted.Str());
            // noise and late answers to the previous requests do not come after the port was cleared
            auto& rx = w.Base->Rx;
            rx.erase(std::remove_if(rx.begin(), rx.end(), [&](const auto& x) { return x.AtNs > std::max(cleared, w.Base->SkippedNs); }), rx.end());
            e->OnFrame(q);
            return;
        }
        log("poll " + hex(q));
        ++polls;
        PBT_CHECK(tcpPort || line == LineSettings(), "polling with settings of a request: " << line.Str());
        unsigned id = modbusTcp ? (q.size() > 6 ? q[6] : 0) : q[0];
        bool found = false;
        for (auto& d: w.Devices)
            if (d->Slave.Id == id) {
                d->Slave.Handle(q);
                found = true;
            }
        PBT_CHECK(found, "a frame nobody asked for: " << hex(q));
        if (pollHook)
            pollHook();
    };
    for (auto& d: w.Devices)
        d->Slave.OnRequest = [&, raw = d.get()](const ModbusRequest& q) {
            PBT_CHECK(!q.IsWrite(), "polling writes to device " << raw->Slave.Id << ": " << q.Str());
            bool any = false;
            for (auto k: raw->Regs) {
                auto& s = w.Regs[k].S;
                unsigned fn = s.Type == Modbus::REG_COIL ? 1 : s.Type == Modbus::REG_INPUT ? 4 : 3;
                any |= fn == q.Fn && s.Addr >= q.Addr && s.Addr < q.Addr + q.Count;
            }
            PBT_CHECK(any, "polling reads what is not configured from device " << raw->Slave.Id << ": " << q.Str());
            return Fault::None;
        };
    rpc.OnAnswer = [&](RpcCall& c) {
        std::shared_ptr<Exp> e;
        for (auto& x: queue)
            if (x->Call.get() == &c)
                e = x;
        log("answer " + c.Method + " " + (c.Ok ? jsonText(c.Result) : std::to_string(c.Code) + " " + c.Message));
        if (!e)
            return; // answered by the handler at once, checked there
        PBT_CHECK(tasks, "a request is performed during polling: " << e->Str);
        PBT_CHECK(queue.front() == e, "requests are performed out of order: " << e->Str << " before " << queue.front()->Str);
        queue.pop_front();
        if (c.Code == -32600 && !c.Ok && e->Frames == 0 && runStart > e->ExpireAt) {
            label("expired");
            ++interesting;
        } else {
            PBT_CHECK(runStart <= e->ExpireAt, "an expired request is performed: " << e->Str);
            PBT_CHECK(e->Valid || !c.Ok, "a request that can't be performed has a result: " << e->Str << " " << jsonText(c.Result));
            if (!e->Valid) {
                label("invalid request");
                ++interesting;
            } else if ((e->OpenFails && !w.Base->Opened) || w.Base->IoError) {
                if (e->Kind != "scan" && (e->Kind != "setup" || !w.Base->IoError))
                    PBT_CHECK(!c.Ok && c.Code == -32000, "the port does not work, the answer: " << (c.Ok ? jsonText(c.Result) : std::to_string(c.Code)) << " of " << e->Str);
                label("port does not work");
                ++interesting;
            } else
                e->OnAnswer(c);
        }
        runStart = now();
        wanted = LineSettings();
        if (!queue.empty() && queue.front()->Call->Request.isMember("baud_rate")) {
            auto& r = queue.front()->Call->Request;
            wanted = LineSettings{r["baud_rate"].asInt(), r["data_bits"].asInt(), r["stop_bits"].asInt(), r["parity"].asString()[0]};
        }
    };
    auto updateWanted = [&] {
        wanted = LineSettings();
        if (!queue.empty() && queue.front()->Call->Request.isMember("baud_rate")) {
            auto& r = queue.front()->Call->Request;
            wanted = LineSettings{r["baud_rate"].asInt(), r["data_bits"].asInt(), r["stop_bits"].asInt(), r["parity"].asString()[0]};
        }
    };
    auto effective = [&](int64_t timeoutMs) { // response timeout in ns
        return std::max<int64_t>(timeoutMs, minTimeout) * MS;
    };
    auto settings = [&](Json::Value& r) {
        if (tcpPort) {
            r["ip"] = "192.168.1.7";
            r["port"] = 502;
        } else {
            r["path"] = "/dev/ttyRS485-1";
            r["baud_rate"] = g.pick({9600, 115200, 1200});
            r["parity"] = std::string(1, g.pick({'N', 'E', 'O'}));
            r["data_bits"] = g.pick({8, 7});
            r["stop_bits"] = g.pick({1, 2});
        }
    };
    auto slaveId = [&]() -> unsigned { return g.chance(1, 2) ? w.Devices[g.below(nDev)]->Slave.Id : unsigned(g.pick({2, 100, 200, 247})); };
    auto issue = [&](std::shared_ptr<Exp> e, const std::string& method, const Json::Value& r) {
        int64_t total = 10000;
        if (r.isMember("total_timeout") && r["total_timeout"].isInt())
            total = r["total_timeout"].asInt();
        e->ExpireAt = now() + total * MS;
        e->Str = method + " " + jsonText(r);
        g.note(e->Str);
        log("issue " + e->Str);
        e->OpenFails = w.Base->OpenFails;
        auto c = std::make_shared<RpcCall>();
        c->Method = method;
        c->Request = r;
        c->IssuedAt = now();
        e->Call = c;
        bool first = queue.empty();
        rpc.Calls.push_back(c);
        rpc.Issue(c);
        if (c->Answers) {
            PBT_CHECK(!c->Ok, "a request is answered before it is performed: " << e->Str);
            PBT_CHECK(!e->Valid, "a valid request is refused: " << e->Str << ": " << c->Message);
            label("refused at once");
            ++interesting;
            return;
        }
        queue.push_back(e);
        if (first) {
            if (tasks)
                runStart = now();
            updateWanted();
        }
    };
    auto format = [&](Json::Value& r, const Bytes& msg, bool& asHex) {
        asHex = g.chance(3, 4);
        for (auto b: msg)
            asHex |= b < 0x20 || b > 0x7e;
        if (asHex) {
            r["format"] = "HEX";
            std::string s = hexLower(msg);
            if (g.flip())
                for (auto& ch: s)
                    ch = char(toupper(ch));
            r["msg"] = s;
        } else {
            if (g.flip())
                r["format"] = "STR";
            r["msg"] = asText(msg);
        }
    };
    auto timeouts = [&](Json::Value& r, int64_t& response, int64_t& frame) {
        response = 500;
        frame = 20;
        if (g.chance(1, 2))
            r["response_timeout"] = Json::Value::Int64(response = g.pick({0, 1, 50, 300, 1500}));
        if (g.chance(1, 2))
            r["frame_timeout"] = Json::Value::Int64(frame = g.pick({0, 5, 30, 100}));
        if (g.chance(1, 3))
            r["total_timeout"] = g.pick({0, 10, 200, 3000, 60000});
    };
    // --- port/Load of bytes
    auto genRaw = [&] {
        auto e = std::make_shared<Exp>();
        e->Kind = "raw";
        Json::Value r;
        settings(r);
        Bytes msg(1 + g.below(g.chance(1, 8) ? 300 : 12));
        bool text = g.chance(1, 3);
        for (auto& b: msg)
            b = text ? uint8_t(g.range(0x20, 0x7e)) : g.byte();
        if (g.chance(1, 12))
            msg.clear();
        bool asHex;
        format(r, msg, asHex);
        if (g.chance(1, 3))
            r["protocol"] = "raw";
        size_t size = g.chance(1, 10) ? 0 : 1 + g.below(g.chance(1, 8) ? 600 : 20);
        r["response_size"] = Json::Value::UInt(unsigned(size));
        int64_t response, frame;
        timeouts(r, response, frame);
        // the answer of the line
        struct Part
        {
            int64_t Delay;
            Bytes Data;
        };
        auto parts = std::make_shared<std::vector<Part>>();
        for (size_t k = 0, n = g.below(4); k < n; ++k) {
            Part p;
            int64_t limit = k ? frame * MS : effective(response);
            p.Delay = g.chance(1, 6) ? limit + MS * g.pick({1, 50}) : int64_t(g.below(uint64_t(limit) + 1));
            p.Data.resize(1 + g.below(8));
            for (auto& b: p.Data)
                b = asHex ? g.byte() : uint8_t(g.range(0x20, 0x7e));
            parts->push_back(p);
        }
        Bytes expected;
        int64_t expectedTime = 0;
        for (size_t k = 0; k < parts->size() && expected.size() < size; ++k) {
            if ((*parts)[k].Delay > (k ? frame * MS : effective(response))) {
                parts->resize(k);
                break;
            }
            for (auto b: (*parts)[k].Data)
                if (expected.size() < size)
                    expected.push_back(b);
                else {
                    (*parts)[k].Data.resize((*parts)[k].Data.size() - 1); // nothing stays on the line
                }
            if (expected.size() == size)
                parts->resize(k + 1);
        }
        if (size == 0)
            parts->clear();
        (void)expectedTime;
        auto sentAt = std::make_shared<int64_t>(0);
        auto* raw = e.get();
        e->OnFrame = [&, raw, msg, parts, sentAt](const Bytes& q) {
            PBT_CHECK(raw->Frames == 1, "more than one frame is sent: " << raw->Str);
            PBT_CHECK(q == msg, "sent " << hex(q) << ", requested " << hex(msg) << ": " << raw->Str);
            *sentAt = now();
            int64_t t = 0;
            for (auto& p: *parts) {
                t += p.Delay;
                if (!p.Data.empty())
                    w.Base->Push(t, p.Data);
            }
        };
        e->OnAnswer = [&, raw, expected, asHex, size, msg, response, sentAt](RpcCall& c) {
            PBT_CHECK(raw->Frames == 1 || msg.empty(), "nothing is sent: " << raw->Str << " answer " << (c.Ok ? jsonText(c.Result) : c.Message));
            if (expected.empty() && size) {
                PBT_CHECK(!c.Ok, "nothing was received, the result is " << jsonText(c.Result) << ": " << raw->Str);
                PBT_CHECK(now() - *sentAt >= effective(response), "gave up in " << (now() - *sentAt) / 1000 << " us: " << raw->Str);
                label("raw: no answer");
                ++interesting;
                return;
            }
            PBT_CHECK(c.Ok, "the line answered " << hex(expected) << ", error " << c.Code << " " << c.Message << ": " << raw->Str);
            Json::Value want;
            want["response"] = asHex ? hexLower(expected) : asText(expected);
            PBT_EQ(jsonText(c.Result), jsonText(want), "result of " << raw->Str);
            label("raw: result");
            ++data;
        };
        // a mistake in the request
        if (g.chance(1, 8)) {
            e->Valid = false;
            switch (g.below(6)) {
                case 0:
                    r["format"] = "HEX";
                    r["msg"] = hexLower(msg) + "a";
                    break;
                case 1:
                    r["format"] = "HEX";
                    r["msg"] = hexLower(msg) + g.pick({std::string("zz"), std::string("1g"), std::string(" 1"), std::string("-1"), std::string("0x")});
                    break;
                case 2:
                    r.removeMember("msg");
                    break;
                case 3:
                    r["response_size"] = -1;
                    break;
                case 4:
                    r["format"] = "BIN";
                    break;
                default:
                    if (tcpPort)
                        r["port"] = 70000;
                    else
                        r["baud_rate"] = 12345;
            }
        }
        issue(e, "port/Load", r);
    };
    // --- port/Load of Modbus requests
    auto genModbus = [&] {
        auto e = std::make_shared<Exp>();
        e->Kind = "modbus";
        Json::Value r;
        unsigned id = slaveId();
        bool useTcp = modbusTcp;
        bool byDevice = g.chance(1, 3);
        if (byDevice) {
            auto& d = *w.Devices[g.below(nDev)];
            id = d.Slave.Id;
            r["device_id"] = d.Config->Id;
        } else {
            settings(r);
            bool polled = false;
            for (auto& d: w.Devices)
                polled |= d->Slave.Id == id;
            if (!polled)
                useTcp = g.chance(1, 4) ? !modbusTcp : modbusTcp;
            r["protocol"] = useTcp ? "modbus-tcp" : "modbus";
            r["slave_id"] = id;
        }
        unsigned fn = unsigned(g.pick({1, 2, 3, 4, 5, 6, 15, 16, 23}));
        unsigned addr = unsigned(g.chance(1, 2) ? g.below(60) : g.pick({uint64_t(0x100), uint64_t(0xFF00), g.below(0xFF00)}));
        unsigned count = 1 + unsigned(g.below(g.chance(1, 6) ? (fn <= 2 ? 2000 : 120) : 9));
        unsigned waddr = 0, wcount = 1;
        auto avoidIdentity = [](unsigned& a, unsigned n) { // what the scan reads does not change
            if (a < 400 && a + n > 100)
                a += 400;
        };
        if (fn == 6 || fn == 16)
            avoidIdentity(addr, count);
        r["function"] = fn;
        r["address"] = addr;
        Bytes msg, pdu{uint8_t(fn)};
        ref::be16(pdu, addr);
        bool badData = g.chance(1, 10) && fn >= 5;
        auto fill = [&](size_t n) {
            for (size_t i = 0; i < n; ++i)
                msg.push_back(g.byte());
        };
        switch (fn) {
            case 1:
            case 2:
            case 3:
            case 4:
                ref::be16(pdu, count);
                break;
            case 5:
                msg = {uint8_t(g.flip() ? 0xff : 0), 0};
                count = 1;
                break;
            case 6:
                fill(2);
                count = 1;
                break;
            case 15:
                fill((count + 7) / 8);
                break;
            case 16:
                fill(count * 2);
                break;
            default:
                waddr = unsigned(g.below(1000));
                wcount = 1 + unsigned(g.below(9));
                avoidIdentity(waddr, wcount);
                fill(wcount * 2);
        }
        if (badData) {
            if (g.flip() && !msg.empty())
                msg.pop_back();
            else
                msg.push_back(1);
            e->Valid = false;
        }
        if (fn == 5 || fn == 6)
            pdu.insert(pdu.end(), msg.begin(), msg.end());
        if (fn == 15 || fn == 16) {
            ref::be16(pdu, count);
            pdu.push_back(uint8_t(msg.size()));
            pdu.insert(pdu.end(), msg.begin(), msg.end());
        }
        if (fn == 23) {
            ref::be16(pdu, count);
            ref::be16(pdu, waddr);
            ref::be16(pdu, wcount);
            pdu.push_back(uint8_t(msg.size()));
            pdu.insert(pdu.end(), msg.begin(), msg.end());
            r["write_address"] = waddr;
            if (wcount != 1 || g.flip())
                r["write_count"] = wcount;
        }
        if (count != 1 || g.flip())
            r["count"] = count;
        bool asHex = true;
        if (!msg.empty()) {
            format(r, msg, asHex);
            if (!asHex && fn != 5 && fn != 6 && fn != 15 && fn != 16)
                asHex = false;
        } else
            r["format"] = "HEX";
        // data of the device are printed as they are requested
        if (!asHex) {
            r["format"] = "HEX";
            r["msg"] = hexLower(msg);
            asHex = true;
        }
        int64_t response, frame;
        timeouts(r, response, frame);
        if (effective(response) == 0) {
            r["response_timeout"] = 20;
            response = 20;
        }
        enum Mode
        {
            OK,
            LOST,
            LOST_ANSWER,
            EXCEPTION,
            CRC,
            WRONG_FN,
            WRONG_SLAVE
        };
        Mode mode = g.pick({OK, OK, OK, OK, LOST, LOST_ANSWER, EXCEPTION, EXCEPTION, CRC, WRONG_FN, WRONG_SLAVE});
        unsigned exc = unsigned(g.pick({1, 2, 3, 4, 6, 11, 8}));
        int64_t delay = int64_t(g.below(uint64_t(effective(response)) + 1));
        if (delay < 1000)
            delay = 1000;
        auto answerData = std::make_shared<Bytes>();
        auto* raw = e.get();
        auto sentAt = std::make_shared<int64_t>(0);
        e->OnFrame = [&, raw, id, pdu, useTcp, mode, exc, delay, answerData, sentAt](const Bytes& q) {
            PBT_CHECK(raw->Frames == 1, "more than one frame is sent: " << raw->Str);
            unsigned tid = useTcp && q.size() > 2 ? q[0] << 8 | q[1] : 0;
            auto want = useTcp ? tcp(tid, id, pdu) : rtu(id, pdu);
            PBT_CHECK(q == want, "sent " << hex(q) << ", requested " << hex(want) << ": " << raw->Str);
            *sentAt = now();
            if (mode == LOST)
                return;
            bool poll = false;
            for (auto& d: w.Devices)
                poll |= d->Slave.Id == id;
            (void)poll;
            auto a = perform(slave(id), pdu, mode == EXCEPTION ? exc : 0);
            if (mode == LOST_ANSWER)
                return;
            if (mode == OK && (pdu[0] <= 4 || pdu[0] == 23))
                answerData->assign(a.begin() + 2, a.end());
            if (mode == WRONG_FN)
                a[0] = uint8_t((a[0] & 0x80) | (pdu[0] == 3 ? 4 : 3));
            unsigned from = mode == WRONG_SLAVE ? (id + 1) & 0xff : id;
            auto f = useTcp ? tcp(tid, from, a) : rtu(from, a);
            if (mode == CRC) {
                if (useTcp)
                    f[4] = f[5] = 0;
                else
                    f.back() ^= 0x10;
            }
            w.Base->Push(delay, f);
        };
        e->OnAnswer = [&, raw, mode, exc, answerData, sentAt, response](RpcCall& c) {
            PBT_CHECK(raw->Frames == 1, "nothing is sent: " << raw->Str << " answer " << (c.Ok ? jsonText(c.Result) : c.Message));
            switch (mode) {
                case OK: {
                    PBT_CHECK(c.Ok, "the device answered, error " << c.Code << " " << c.Message << ": " << raw->Str);
                    Json::Value want;
                    want["response"] = hexLower(*answerData);
                    PBT_EQ(jsonText(c.Result), jsonText(want), "result of " << raw->Str);
                    label("modbus: result");
                    ++data;
                    return;
                }
                case EXCEPTION:
                    PBT_CHECK(c.Ok && c.Result.isMember("exception") && !c.Result.isMember("response"),
                              "the device answered by exception " << exc << ", the answer: " << (c.Ok ? jsonText(c.Result) : c.Message) << " of " << raw->Str);
                    PBT_EQ(c.Result["exception"]["code"].asUInt(), exc, "code of the exception of " << raw->Str);
                    PBT_CHECK(c.Result["exception"]["msg"].isString() && !c.Result["exception"]["msg"].asString().empty(), "no text of the exception: " << jsonText(c.Result));
                    label("modbus: exception");
                    ++interesting;
                    return;
                case LOST:
                case LOST_ANSWER:
                    PBT_CHECK(!c.Ok && c.Code == -32600, "no answer of the device, the answer: " << (c.Ok ? jsonText(c.Result) : std::to_string(c.Code) + c.Message) << " of " << raw->Str);
                    PBT_CHECK(now() - *sentAt >= effective(response), "gave up in " << (now() - *sentAt) / 1000 << " us: " << raw->Str);
                    label("modbus: no answer");
                    ++interesting;
                    return;
                default:
                    PBT_CHECK(!c.Ok, "the answer of the device is damaged, the result: " << jsonText(c.Result) << " of " << raw->Str);
                    label("modbus: damaged answer");
                    ++interesting;
            }
        };
        if (g.chance(1, 8)) {
            e->Valid = false;
            switch (g.below(8)) {
                case 0:
                    if (byDevice)
                        r["device_id"] = "no such device";
                    else
                        r["slave_id"] = g.pick({256, 300, 65536 + 5, -1});
                    break;
                case 1:
                    r["address"] = g.pick({65536, 100000, -1});
                    break;
                case 2:
                    r["count"] = g.pick({65536 + 1, 0, -5});
                    break;
                case 3:
                    r["function"] = g.pick({0, 7, 17, 259});
                    break;
                case 4:
                    r.removeMember("address");
                    break;
                case 5:
                    r["msg"] = "123";
                    r["format"] = "HEX";
                    break;
                case 6:
                    r["write_address"] = g.pick({65536, -1});
                    break;
                default:
                    if (byDevice)
                        r.removeMember("device_id");
                    else
                        r.removeMember("slave_id");
            }
        }
        issue(e, "port/Load", r);
    };
    // --- port/Setup
    auto genSetup = [&] {
        struct Item
        {
            unsigned Slave;
            bool HasSn = false;
            uint32_t Sn = 0;
            LineSettings S;
            std::map<unsigned, uint16_t> Regs, Written;
        };
        auto e = std::make_shared<Exp>();
        e->Kind = "setup";
        Json::Value r;
        if (tcpPort) {
            r["ip"] = "192.168.1.7";
            r["port"] = 502;
        } else
            r["path"] = "/dev/ttyRS485-1";
        if (g.chance(1, 4))
            r["total_timeout"] = g.pick({0, 100, 5000});
        r["items"] = Json::Value(Json::arrayValue);
        auto items = std::make_shared<std::vector<Item>>();
        for (size_t k = 0, n = g.below(4); k < n; ++k) {
            Item it;
            Json::Value j;
            j["slave_id"] = it.Slave = slaveId();
            if (!tcpPort) {
                j["baud_rate"] = it.S.Baud = g.pick({9600, 115200, 1200});
                it.S.Parity = g.pick({'N', 'E', 'O'});
                j["parity"] = std::string(1, it.S.Parity);
                j["data_bits"] = it.S.Data = g.pick({8, 7});
                j["stop_bits"] = it.S.Stop = g.pick({1, 2});
                if (g.chance(1, 3)) {
                    it.HasSn = true;
                    it.Sn = uint32_t(g.bits(32));
                    j["sn"] = Json::Value::UInt(it.Sn);
                }
            }
            if (g.chance(5, 6)) {
                Json::Value c(Json::objectValue);
                if (g.flip()) {
                    int b = g.pick({110, 300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200});
                    c["baud_rate"] = b;
                    it.Regs[110] = uint16_t((b + 50) / 100);
                }
                if (g.flip())
                    c["parity"] = it.Regs[111] = uint16_t(g.below(3));
                if (g.flip())
                    c["stop_bits"] = it.Regs[112] = uint16_t(1 + g.below(2));
                if (g.flip())
                    c["slave_id"] = it.Regs[128] = uint16_t(1 + g.below(247));
                j["cfg"] = c;
            }
            items->push_back(it);
            r["items"].append(j);
        }
        auto current = std::make_shared<size_t>(0);
        auto failed = std::make_shared<bool>(false); // some frame was not answered
        auto refused = std::make_shared<bool>(false);
        bool faults = g.chance(1, 3);
        auto* raw = e.get();
        e->OnFrame = [&, raw, items, current, failed, refused, faults](const Bytes& q) {
            while (*current < items->size() && (*items)[*current].Regs.size() == (*items)[*current].Written.size())
                ++*current;
            PBT_CHECK(*current < items->size(), "a frame nobody asked for: " << hex(q) << " in " << raw->Str);
            auto& it = (*items)[*current];
            if (!tcpPort)
                PBT_CHECK(line == it.S, "item " << *current << " is sent with settings " << line.Str() << ", requested are " << it.S.Str() << ": " << raw->Str);
            Bytes pdu, head;
            unsigned tid = 0;
            if (modbusTcp) {
                PBT_CHECK(q.size() >= 8 && q[2] == 0 && q[3] == 0 && size_t(q[4] << 8 | q[5]) == q.size() - 6, "the port is Modbus TCP, sent " << hex(q) << ": " << raw->Str);
                tid = q[0] << 8 | q[1];
                PBT_EQ(unsigned(q[6]), it.Slave, "slave of item " << *current << " of " << raw->Str);
                pdu.assign(q.begin() + 7, q.end());
            } else {
                PBT_CHECK(q.size() >= 6 && ref::crcOk(q), "sent " << hex(q) << ": " << raw->Str);
                if (it.HasSn) {
                    head = {0x46, 0x08, uint8_t(it.Sn >> 24), uint8_t(it.Sn >> 16), uint8_t(it.Sn >> 8), uint8_t(it.Sn)};
                    PBT_CHECK(q[0] == 0xFD && q.size() > 9 && std::equal(head.begin(), head.end(), q.begin() + 1), "item " << *current << " is not sent by serial number: " << hex(q) << ": " << raw->Str);
                    pdu.assign(q.begin() + 7, q.end() - 2);
                    head[1] = 0x09;
                } else {
                    PBT_EQ(unsigned(q[0]), it.Slave, "slave of item " << *current << " of " << raw->Str);
                    pdu.assign(q.begin() + 1, q.end() - 2);
                }
            }
            PBT_CHECK(pdu.size() >= 5 && (pdu[0] == 6 || pdu[0] == 16), "not a write: " << hex(q) << ": " << raw->Str);
            unsigned addr = pdu[1] << 8 | pdu[2];
            std::vector<uint16_t> vals;
            if (pdu[0] == 6) {
                PBT_CHECK(pdu.size() == 5, "length of " << hex(q));
                vals.push_back(uint16_t(pdu[3] << 8 | pdu[4]));
            } else {
                unsigned n = pdu[3] << 8 | pdu[4];
                PBT_CHECK(pdu.size() == 6 + 2 * n && pdu[5] == 2 * n && n, "length of " << hex(q));
                for (unsigned i = 0; i < n; ++i)
                    vals.push_back(uint16_t(pdu[6 + 2 * i] << 8 | pdu[7 + 2 * i]));
            }
            for (size_t i = 0; i < vals.size(); ++i) {
                auto w1 = it.Regs.find(unsigned(addr + i));
                PBT_CHECK(w1 != it.Regs.end() && w1->second == vals[i], "item " << *current << ": " << vals[i] << " is written to register " << addr + i << ": " << raw->Str);
                PBT_CHECK(it.Written.emplace(unsigned(addr + i), vals[i]).second, "register " << addr + i << " is written twice: " << raw->Str);
                // the address changes the last
                if (addr + i == 128)
                    PBT_CHECK(it.Written.size() == it.Regs.size(), "the address is changed before other settings: " << raw->Str);
            }
            unsigned exc = 0;
            if (faults && g.chance(1, 3)) {
                if (g.flip()) {
                    *failed = true;
                    return;
                }
                exc = unsigned(g.pick({1, 2, 3, 4}));
                *refused = true;
            }
            Bytes a = head;
            Bytes p = perform(slave(it.HasSn ? 1000 + *current : it.Slave), pdu, exc);
            a.insert(a.end(), p.begin(), p.end());
            w.Base->Push(300000, modbusTcp ? tcp(tid, it.Slave, a) : rtu(it.HasSn ? 0xFD : it.Slave, a));
        };
        e->OnAnswer = [&, raw, items, failed, refused](RpcCall& c) {
            if (*failed) {
                PBT_CHECK(!c.Ok, "a write was not answered, the result is " << jsonText(c.Result) << ": " << raw->Str);
                label("setup: no answer");
                ++interesting;
                return;
            }
            if (!c.Ok && *refused)
                return;
            PBT_CHECK(c.Ok, "error " << c.Code << " " << c.Message << ": " << raw->Str);
            PBT_EQ(jsonText(c.Result), std::string("{}"), "result of " << raw->Str);
            for (size_t k = 0; k < items->size(); ++k)
                PBT_CHECK((*items)[k].Regs == (*items)[k].Written, "item " << k << " is not written completely: " << raw->Str);
            label("setup: done");
            if (raw->Frames)
                ++data;
        };
        if (g.chance(1, 10)) {
            e->Valid = false;
            Json::Value j;
            j["slave_id"] = g.pick({256, 300, -1});
            j["baud_rate"] = 9600;
            j["parity"] = "N";
            j["data_bits"] = 8;
            j["stop_bits"] = 1;
            j["cfg"]["stop_bits"] = 1;
            switch (g.below(4)) {
                case 0:
                    break;
                case 1:
                    j["slave_id"] = 1;
                    j["cfg"]["baud_rate"] = 12345;
                    break;
                case 2:
                    j["slave_id"] = 1;
                    j["cfg"]["parity"] = 3;
                    break;
                default:
                    j["slave_id"] = "one";
            }
            Json::Value arr(Json::arrayValue);
            arr.append(j);
            r["items"] = arr;
        }
        issue(e, "port/Setup", r);
    };
    // --- port/Scan and device/Probe
    for (size_t k = 0, n = g.below(4); k < n; ++k) {
        WbDevice d;
        bool polled = g.flip() && k < nDev;
        d.Slave = polled ? w.Devices[k]->Slave.Id : 50 + unsigned(k);
        auto& s = slave(d.Slave);
        d.Sn = g.chance(1, 2) ? 0xFE000000u + unsigned(g.below(0x1000000)) : unsigned(g.bits(31));
        if (polled && g.chance(2, 3)) // the configured one
            d.Sn = unsigned(s.Get(ModbusSlave::HOLDING, 270)) << 16 | s.Get(ModbusSlave::HOLDING, 271);
        for (bool again = true; again;) { // serial numbers are unique
            again = false;
            for (auto& x: wb)
                if (x.Sn == d.Sn)
                    again = true;
            d.Sn += again;
        }
        d.Model = g.pick({std::string("WBMR6C"), std::string("WB-MAP12E"), std::string("MAP3E fw2"), std::string("WB MAP12"), std::string("MAPX"), std::string("WBMAP"), std::string("WB-MSW-LORA-v.4")});
        d.ExModel = d.Model.size() > 6 || g.flip();
        d.FwSig = g.pick({std::string("mr6cG"), std::string("msw5GL"), std::string("map12eX12345")});
        d.FwVer = g.pick({std::string("1.2.3"), std::string("4.31.0+wb2-rc12")});
        d.Baud = unsigned(g.pick({96, 1152, 12}));
        d.Parity = unsigned(g.pick({0, 1, 2, 3}));
        d.Stop = 1 + unsigned(g.below(2));
        auto str = [&](unsigned addr, const std::string& t, unsigned n) {
            for (unsigned i = 0; i < n; ++i)
                s.Set(ModbusSlave::HOLDING, addr + i, i < t.size() ? uint8_t(t[i]) : 0);
        };
        str(200, d.Model, 20);
        str(250, d.FwVer, 16);
        str(290, d.FwSig, 12);
        s.Set(ModbusSlave::HOLDING, 110, uint16_t(d.Baud));
        s.Set(ModbusSlave::HOLDING, 111, uint16_t(d.Parity));
        s.Set(ModbusSlave::HOLDING, 112, uint16_t(d.Stop));
        if (!polled) {
            s.Set(ModbusSlave::HOLDING, 270, uint16_t(d.Sn >> 16));
            s.Set(ModbusSlave::HOLDING, 271, uint16_t(d.Sn));
        }
        if (g.chance(1, 2))
            for (unsigned addr: {200u, 1200u, 250u, 290u, 110u, 111u, 112u})
                if (g.chance(1, 4))
                    d.Bad[addr] = g.flip() ? std::make_pair(int(g.pick({1, 2, 4})), 0) : std::make_pair(0, int(1 + g.below(4)));
        if (!d.ExModel)
            d.Bad[200] = {g.pick({2, 3}), 0};
        wb.push_back(d);
    }
    // what is read from the device; nothing if it is a lost or refused read
    auto readable = [&](const WbDevice& d, unsigned key) {
        auto it = d.Bad.find(key);
        return it == d.Bad.end() || (it->second.first == 0 && it->second.second < 3);
    };
    auto memoryText = [&](unsigned sl, unsigned addr, unsigned n) {
        std::string t;
        for (unsigned i = 0; i < n; ++i) {
            char ch = char(slave(sl).Get(ModbusSlave::HOLDING, addr + i));
            if (!ch)
                break;
            t += ch;
        }
        return t;
    };
    auto checkDetails = [&](const WbDevice& d, uint32_t sn, const Json::Value& j, const std::string& ctx) {
        Json::Value want(Json::objectValue);
        std::set<std::string> errors;
        auto text = jsonText(j);
        uint32_t shownSn = sn;
        if (readable(d, 200) || readable(d, 1200)) {
            std::string m = memoryText(d.Slave, 200, readable(d, 200) ? 20 : 6);
            PBT_EQ(j["device_signature"].asString(), m, "device_signature in " << text << " of " << ctx);
            bool map = false, space = false;
            for (size_t i = 0; i < m.size(); ++i) {
                space |= m[i] == ' ';
                map |= m.compare(i, 3, "MAP") == 0 && i + 3 < m.size() && isdigit(m[i + 3]);
            }
            if (map && !space)
                shownSn &= 0x01FFFFFF;
        } else {
            PBT_CHECK(!j.isMember("device_signature"), "device_signature that was not read: " << text << " of " << ctx);
            errors.insert("com.wb.serial_driver.device.read_device_signature_error");
        }
        PBT_EQ(j["sn"].asString(), std::to_string(shownSn), "sn in " << text << " of " << ctx);
        if (readable(d, 290))
            PBT_EQ(j["fw_signature"].asString(), memoryText(d.Slave, 290, 12), "fw_signature in " << text << " of " << ctx);
        else
            errors.insert("com.wb.serial_driver.device.read_fw_signature_error");
        if (readable(d, 250))
            PBT_EQ(j["fw"]["version"].asString(), memoryText(d.Slave, 250, 16), "version in " << text << " of " << ctx);
        else
            errors.insert("com.wb.serial_driver.device.read_fw_version_error");
        auto& s = slave(d.Slave);
        auto& cfg = j["cfg"];
        PBT_EQ(cfg["slave_id"].asUInt(), d.Slave, "slave_id in " << text << " of " << ctx);
        if (readable(d, 110))
            PBT_EQ(cfg["baud_rate"].asUInt(), s.Get(ModbusSlave::HOLDING, 110) * 100u, "baud_rate in " << text << " of " << ctx);
        if (readable(d, 112))
            PBT_EQ(cfg["stop_bits"].asUInt(), unsigned(s.Get(ModbusSlave::HOLDING, 112)), "stop_bits in " << text << " of " << ctx);
        if (readable(d, 111)) {
            unsigned p = s.Get(ModbusSlave::HOLDING, 111);
            PBT_EQ(cfg["parity"].asString(), std::string(p == 0 ? "N" : p == 1 ? "O" : p == 2 ? "E" : "U"), "parity in " << text << " of " << ctx);
        }
        if (!readable(d, 110) || !readable(d, 111) || !readable(d, 112))
            errors.insert("com.wb.serial_driver.device.read_serial_params_error");
        std::set<std::string> got;
        for (auto& x: j["errors"])
            got.insert(x["id"].asString());
        std::string a, b;
        for (auto& x: errors)
            a += x + " ";
        for (auto& x: got)
            b += x + " ";
        PBT_EQ(b, a, "errors in " << text << " of " << ctx);
        std::string type;
        for (auto& x: w.Devices)
            if (x->Slave.Id == d.Slave && x->Device->GetSnRegister() && x->Config->SlaveId == std::to_string(d.Slave) &&
                sn == (unsigned(s.Get(ModbusSlave::HOLDING, 270)) << 16 | s.Get(ModbusSlave::HOLDING, 271)))
                type = x->Config->DeviceType;
        PBT_EQ(j.get("configured_device_type", "").asString(), type, "configured_device_type in " << text << " of " << ctx);
    };
    // reading of registers of a device during a scan or a probe; true if the frame is for it
    auto serveRead = [&](WbDevice& d, const Bytes& pdu, std::function<void(const Bytes&)> answer, const std::string& ctx) {
        PBT_CHECK(pdu.size() == 5 && pdu[0] == 3, "an unexpected request " << hex(pdu) << " in " << ctx);
        unsigned addr = pdu[1] << 8 | pdu[2], n = pdu[3] << 8 | pdu[4];
        unsigned key = addr == 200 && n == 6 ? 1200 : addr;
        bool known = (addr == 200 && (n == 20 || n == 6)) || (addr == 250 && n == 16) || (addr == 290 && n == 12) || ((addr == 110 || addr == 111 || addr == 112) && n == 1) || (addr == 270 && n == 2);
        PBT_CHECK(known, "an unexpected request " << hex(pdu) << " in " << ctx);
        unsigned k = d.Tries[key]++;
        auto it = d.Bad.find(key);
        if (it != d.Bad.end() && it->second.first) {
            answer({0x83, uint8_t(it->second.first)});
            return;
        }
        if (it != d.Bad.end() && int(k) < it->second.second)
            return; // lost
        answer(perform(slave(d.Slave), pdu, 0));
    };
    size_t scanned = wb.size(); // position of the scan; nothing is left until it is started
    auto genScan = [&] {
        auto e = std::make_shared<Exp>();
        e->Kind = "scan";
        Json::Value r;
        settings(r);
        unsigned cmd = 0x46;
        if (g.flip())
            r["command"] = cmd = unsigned(g.pick({0x46, 0x60}));
        std::string mode = g.pick({std::string("all"), std::string("start"), std::string("next"), std::string("")});
        if (!mode.empty())
            r["mode"] = mode;
        auto found = std::make_shared<std::vector<size_t>>();
        auto bad = std::make_shared<bool>(false);
        auto lostNext = std::make_shared<bool>(false);
        bool faults = g.chance(1, 5);
        auto* raw = e.get();
        e->OnFrame = [&, raw, cmd, mode, found, bad, lostNext, faults](const Bytes& q) {
            PBT_CHECK(!modbusTcp, "scan over Modbus TCP without Fast Modbus: " << hex(q));
            PBT_CHECK(q.size() >= 5 && ref::crcOk(q), "sent " << hex(q) << ": " << raw->Str);
            if (q[0] != 0xFD) { // serial number of a polled device
                for (auto& x: w.Devices)
                    if (x->Slave.Id == q[0]) {
                        Bytes pdu(q.begin() + 1, q.end() - 2);
                        PBT_CHECK(pdu == Bytes({3, 1, 14, 0, 2}), "an unexpected request " << hex(q) << " in " << raw->Str);
                        w.Base->Push(200000, rtu(q[0], perform(x->Slave, pdu, 0)));
                        return;
                    }
                PBT_FAIL("an unexpected request " << hex(q) << " in " << raw->Str);
            }
            PBT_CHECK(q[1] == cmd, "sent " << hex(q) << ", the command must be " << cmd << ": " << raw->Str);
            if (q[2] == 1 || q[2] == 2) {
                PBT_CHECK(q.size() == 5, "sent " << hex(q) << ": " << raw->Str);
                PBT_CHECK(!*bad, "the scan goes on after an error: " << raw->Str);
                if (raw->Frames == 1)
                    PBT_CHECK((q[2] == 1) == (mode != "next"), "a scan begins with " << hex(q) << ": " << raw->Str);
                else
                    PBT_CHECK(q[2] == 2 && mode != "start" && mode != "next", "unexpected " << hex(q) << ": " << raw->Str);
                if (q[2] == 1)
                    scanned = 0;
                if (wb.empty()) {
                    *lostNext = q[2] == 2;
                    return;
                }
                Bytes a(g.below(5), 0xff);
                Bytes p{0xFD, uint8_t(cmd)};
                if (scanned < wb.size()) {
                    auto& d = wb[scanned];
                    found->push_back(scanned++);
                    p.push_back(3);
                    ref::be16(p, d.Sn >> 16);
                    ref::be16(p, d.Sn & 0xffff);
                    p.push_back(uint8_t(d.Slave));
                } else
                    p.push_back(4);
                ref::appendCrc(p);
                if (faults && g.chance(1, 2)) {
                    *bad = true;
                    p.back() ^= 1;
                    if (p[2] == 3)
                        found->pop_back();
                }
                a.insert(a.end(), p.begin(), p.end());
                w.Base->Push(200000, a);
                return;
            }
            PBT_CHECK(q[2] == 8 && q.size() == 14, "sent " << hex(q) << ": " << raw->Str);
            uint32_t sn = uint32_t(q[3]) << 24 | q[4] << 16 | q[5] << 8 | q[6];
            for (auto k: *found)
                if (wb[k].Sn == sn) {
                    serveRead(wb[k], Bytes(q.begin() + 7, q.end() - 2), [&](const Bytes& pdu) {
                        Bytes a{uint8_t(cmd), 9, q[3], q[4], q[5], q[6]};
                        a.insert(a.end(), pdu.begin(), pdu.end());
                        w.Base->Push(200000, rtu(0xFD, a));
                    }, raw->Str);
                    return;
                }
            PBT_FAIL("a request to a device that was not found: " << hex(q) << " in " << raw->Str);
        };
        e->OnAnswer = [&, raw, found, bad, mode, lostNext](RpcCall& c) {
            PBT_CHECK(c.Ok, "error " << c.Code << " " << c.Message << ": " << raw->Str);
            auto text = jsonText(c.Result);
            PBT_CHECK(c.Result["devices"].isArray(), "result " << text << " of " << raw->Str);
            if (modbusTcp) {
                PBT_CHECK(c.Result["devices"].empty(), "result " << text << " of " << raw->Str);
                return;
            }
            PBT_CHECK(raw->Frames > 0, "nothing is sent: " << raw->Str);
            PBT_EQ(c.Result.isMember("error"), *bad || *lostNext, "error in " << text << " of " << raw->Str);
            if (!*bad && mode != "next" && mode != "start" && !wb.empty())
                PBT_EQ(found->size(), wb.size(), "all devices are to be found: " << raw->Str);
            PBT_EQ(size_t(c.Result["devices"].size()), found->size(), "number of devices in " << text << " of " << raw->Str);
            for (size_t k = 0; k < found->size(); ++k)
                checkDetails(wb[(*found)[k]], wb[(*found)[k]].Sn, c.Result["devices"][Json::ArrayIndex(k)], raw->Str);
            for (auto& d: wb)
                d.Tries.clear();
            label("scan");
            if (!found->empty())
                ++data;
        };
        if (g.chance(1, 10)) {
            e->Valid = false;
            if (g.flip())
                r["command"] = 71;
            else
                r["mode"] = "some";
        }
        issue(e, "port/Scan", r);
    };
    auto genProbe = [&] {
        auto e = std::make_shared<Exp>();
        e->Kind = "probe";
        Json::Value r;
        settings(r);
        int which = wb.empty() ? -1 : int(g.below(wb.size()));
        bool absent = which < 0 || g.chance(1, 5);
        unsigned id = absent ? 222 : wb[size_t(which)].Slave;
        r["slave_id"] = id;
        if (modbusTcp)
            r["protocol"] = "modbus-tcp";
        int snExc = !absent && g.chance(1, 8) ? 2 : 0;
        auto gone = std::make_shared<bool>(false);
        auto* raw = e.get();
        e->OnFrame = [&, raw, which, id, absent, snExc](const Bytes& q) {
            unsigned tid = 0;
            Bytes pdu;
            if (modbusTcp) {
                PBT_CHECK(q.size() >= 8 && q[6] == id, "sent " << hex(q) << ": " << raw->Str);
                tid = q[0] << 8 | q[1];
                pdu.assign(q.begin() + 7, q.end());
            } else {
                PBT_CHECK(q.size() >= 4 && ref::crcOk(q) && q[0] == id, "sent " << hex(q) << ": " << raw->Str);
                pdu.assign(q.begin() + 1, q.end() - 2);
            }
            if (raw->Frames == 1)
                PBT_CHECK(pdu == Bytes({3, 1, 14, 0, 2}), "a probe begins with " << hex(q) << ": " << raw->Str);
            if (absent) {
                PBT_CHECK(raw->Frames == 1, "the device did not answer, one more request is sent: " << hex(q) << ": " << raw->Str);
                return;
            }
            auto answer = [&](const Bytes& a) { w.Base->Push(200000, modbusTcp ? tcp(tid, id, a) : rtu(id, a)); };
            if (raw->Frames == 1 && snExc) {
                answer({0x83, 2});
                return;
            }
            serveRead(wb[size_t(which)], pdu, answer, raw->Str);
        };
        e->OnAnswer = [&, raw, which, id, absent, snExc](RpcCall& c) {
            PBT_CHECK(c.Ok, "error " << c.Code << " " << c.Message << ": " << raw->Str);
            PBT_CHECK(raw->Frames > 0, "nothing is sent: " << raw->Str);
            if (absent) {
                PBT_EQ(jsonText(c.Result), std::string("{}"), "no device, result of " << raw->Str);
                label("probe: nobody");
                ++interesting;
                return;
            }
            if (snExc) {
                PBT_CHECK(c.Result["errors"].size() == 1 && c.Result["errors"][0]["id"].asString() == "com.wb.serial_driver.device.read_sn_error",
                          "result " << jsonText(c.Result) << " of " << raw->Str);
                label("probe: no serial number");
                return;
            }
            auto& d = wb[size_t(which)];
            auto& s = slave(id);
            checkDetails(d, unsigned(s.Get(ModbusSlave::HOLDING, 270)) << 16 | s.Get(ModbusSlave::HOLDING, 271), c.Result, raw->Str);
            d.Tries.clear();
            label("probe: found");
            ++data;
        };
        if (g.chance(1, 10)) {
            e->Valid = false;
            r["slave_id"] = g.pick({256, 1000, -1});
        }
        issue(e, "device/Probe", r);
    };
    auto genRequest = [&] {
        switch (g.weighted({3, 5, 2, 2, 2})) {
            case 0:
                return genRaw();
            case 1:
                return genModbus();
            case 2:
                return genSetup();
            case 3:
                return genScan();
            default:
                return genProbe();
        }
    };
    // --- history
    auto portDriver = driver->GetPortDrivers().at(0);
    unsigned hookPct = unsigned(g.pick({0, 10, 40}));
    int hooks = 0;
    bool noHooks = false;
    sim::onWait = [&](int64_t until) {
        PBT_CHECK(queue.empty(), "the client waits, a request is not performed: " << queue.front()->Str);
        if (!noHooks && hooks < 3 && g.below(100) < hookPct) {
            ++hooks;
            sim::advanceNs(int64_t(g.below(uint64_t(std::max<int64_t>(until - now(), 1)))));
            genRequest();
            if (!queue.empty()) {
                label("issued while the client waits");
                ++interesting;
                return now();
            }
        }
        tasks = false;
        return int64_t(-1);
    };
    pollHook = [&] {
        if (!noHooks && hooks < 3 && g.below(100) < hookPct / 3) {
            ++hooks;
            size_t n = queue.size();
            genRequest();
            if (queue.size() > n) {
                label("issued during polling");
                ++interesting;
            }
        }
    };
    auto cycle = [&] {
        log(std::string("cycle, the port is ") + (w.Base->Opened ? "open" : "closed") + (w.Base->IoError ? ", does not work" : ""));
        hooks = 0;
        tasks = true;
        runStart = now();
        updateWanted();
        size_t n = queue.size();
        (void)n;
        portDriver->Cycle();
        PBT_CHECK(line == LineSettings() || tcpPort || (w.Base->IoError && resetFails), "settings of a request stay after the cycle: " << line.Str());
    };
    w.Base->OpenFails = g.chance(1, 8);
    size_t steps = g.size(1, 13);
    for (size_t k = 0; k < steps; ++k) {
        switch (g.weighted({6, 5, 1, 1, 1})) {
            case 0:
                genRequest();
                if (g.chance(1, 3))
                    genRequest();
                break;
            case 1:
                for (size_t m = 0, n = 1 + g.below(4); m < n; ++m)
                    cycle();
                break;
            case 2:
                sim::advance(milliseconds(g.pick({1, 150, 11000})));
                break;
            case 3: {
                Json::Value none(Json::objectValue);
                auto c = rpc.Call("ports/Load", none);
                PBT_CHECK(c->Ok, "ports/Load: " << c->Message);
                PBT_EQ(jsonText(c->Result.isNull() ? Json::Value(Json::arrayValue) : c->Result), jsonText(expectedPorts), "result of ports/Load");
                break;
            }
            default:
                if (w.Base->OpenFails)
                    w.Base->OpenFails = false;
                else if (w.Base->Opened && !w.Base->IoError) { // the line breaks
                    w.Base->IoError = true;
                    applyFails = g.flip();
                    resetFails = g.flip();
                }
        }
    }
    // --- everything is answered, polling goes on
    noHooks = true;
    w.Base->OpenFails = false;
    cycle();
    PBT_CHECK(queue.empty(), "no answer: " << queue.front()->Str);
    for (auto& c: rpc.Calls)
        PBT_EQ(c->Answers, 1u, "answers to " << c->Method << " " << jsonText(c->Request));
    sim::advance(milliseconds(11000));
    auto stale = [&]() -> const WReg* {
        for (auto& r: w.Regs) {
            auto v = r.R->GetValue();
            if (v.GetType() != TRegisterValue::ValueType::Integer || r.R->GetErrorState().test(TRegister::TError::ReadError) ||
                v.Get<uint64_t>() != w.Devices[size_t(r.Dev)]->Slave.Get(r.S.Table(), r.S.Addr))
                return &r;
        }
        return nullptr;
    };
    int64_t till = now() + 60000 * MS;
    for (int k = 0; k < 3 || (stale() && (k < 200 || now() < till)); ++k)
        cycle();
    if (auto* r = stale())
        PBT_FAIL("device " << w.Devices[size_t(r->Dev)]->Slave.Id << " " << r->S.Str() << " is not polled any more or has a wrong value: "
                           << (r->R->GetValue().GetType() == TRegisterValue::ValueType::Integer ? std::to_string(r->R->GetValue().Get<uint64_t>()) : std::string("none"))
                           << ", the device has " << w.Devices[size_t(r->Dev)]->Slave.Get(r->S.Table(), r->S.Addr));
    if (data >= 2 && interesting)
        nontrivial();
    if (wantSample())
        sample(std::to_string(rpc.Calls.size()) + " requests, " + std::to_string(data) + " with data, " + std::to_string(polls) + " poll requests");
}
