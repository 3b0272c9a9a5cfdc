// IEC 61107 mode C meters and the group reading of Energomera CE301/303
#pragma once
#include "meters.h"
#include <set>

class IecMeter: public Meter
{
public:
    enum
    {
        ACK = 6,
        NAK = 0x15,
        ETX = 3,
        SOH = 1,
        STX = 2
    };
    std::string Id;
    bool SumBcc = false; // sum, otherwise xor
    int Baud = 9600, StartBaud = 9600;
    int PortBaud = 0;
    bool Applied = false;
    Bytes Password;
    const char* ReadCmd = "R1";
    enum
    {
        Idle,
        Signed,
        Prog,
        Auth
    } State = Idle;
    bool SetupTouched = false; // something went wrong since the beginning of the cycle
    std::map<std::string, std::string> Mem;

    IecMeter(pbt::Gen& g, SimPort& p, const std::string& protocol): Meter(g, p, protocol)
    {
        SkipsNoise = true;
        UseCache = true;
        SevenBits = true;
        static const std::string chars = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ ";
        if (!g.chance(1, 8))
            for (size_t n = g.size(1, 32); n-- > 0;)
                Id += chars[g.below(g.chance(1, 4) ? chars.size() : 10)];
        Config["slave_id"] = Id;
        p.OnApply = [this](const TSerialPortConnectionSettings& s) {
            PBT_CHECK(s.Parity == 'E' && s.DataBits == 7 && s.StopBits == 1, "port settings aren't 7E1");
            PortBaud = s.BaudRate;
            Applied = true;
        };
        p.OnReset = [this] {
            PortBaud = 0;
            Applied = false;
        };
    }
    void GenPassword(bool required)
    {
        if (G.flip()) {
            Password = G.bytes(1, 8);
            for (auto b: Password)
                Config["password"].append(b);
        } else if (required)
            Password = Bytes(4, 0);
    }
    uint8_t Bcc(const Bytes& b, size_t from, size_t to) const
    {
        uint8_t r = 0;
        for (size_t i = from; i < to; ++i)
            r = SumBcc ? uint8_t(r + b[i]) : uint8_t(r ^ b[i]);
        return r & 0x7f;
    }
    static Bytes B(const std::string& s)
    {
        return Bytes(s.begin(), s.end());
    }
    Bytes Framed(uint8_t start, const std::string& body)
    {
        Bytes r{start};
        r.insert(r.end(), body.begin(), body.end());
        r.push_back(ETX);
        r.push_back(Bcc(r, 1, r.size()));
        return r;
    }
    void BeginCycle() override
    {
        SetupTouched = false;
    }
    std::string Request(const Bytes& q, std::optional<Bytes>& a) override
    {
        std::string s(q.begin(), q.end());
        bool hears = PortBaud == Baud;
        auto touched = [&](bool h) {
            if (!h)
                a.reset();
        };
        if (s[0] == '/') {
            PBT_EQ(pbt::quote(s), pbt::quote("/?" + Id + "!\r\n"), "sign on");
            PBT_CHECK(PortBaud, "sign on with the settings of the port");
            if (hears)
                State = Signed;
            a = B("/EKT5CE301v12\r\n");
            touched(hears);
            return "sign on";
        }
        if (s[0] == ACK) {
            PBT_EQ(pbt::quote(s), pbt::quote(std::string("\x06") + "051\r\n"), "option select");
            if (hears && State == Signed) {
                State = Prog;
                Baud = 9600;
                a = Framed(SOH, std::string("P0\x02(") + "1234" + ")");
            }
            return "option";
        }
        PBT_CHECK(s[0] == SOH && s.size() >= 5 && q[q.size() - 2] == ETX && q.back() == Bcc(q, 1, q.size() - 1), "bad request " << pbt::quote(s));
        auto body = s.substr(1, s.size() - 3);
        if (body == "B0") {
            if (hears) {
                State = Idle;
                Baud = StartBaud;
            }
            return "end";
        }
        if (body.substr(0, 2) == "P1") {
            std::string want = "P1\x02(";
            for (auto b: Password)
                want += Hex(b, 2);
            PBT_EQ(pbt::quote(body), pbt::quote(want + ")"), "password");
            if (hears && State >= Prog) {
                State = Auth;
                a = Bytes{ACK};
            }
            return "password";
        }
        PBT_CHECK(body.size() > 3 && body.substr(0, 3) == std::string(ReadCmd) + "\x02" && Mem.count(body.substr(3)), "bad request " << pbt::quote(s));
        auto key = body.substr(3);
        if (hears && State == (Password.empty() ? Prog : Auth)) {
            auto name = key.substr(0, key.find('('));
            auto& v = Mem[key];
            a = Framed(STX, v[0] == 'E' ? "(" + v + ")" : name + v);
        }
        return key;
    }
    std::optional<Bytes> Accept(const Exchange& e) override
    {
        auto& b = e.Got;
        if (b.size() < 4 || b[0] != STX || b[b.size() - 2] != ETX || b.back() != Bcc(b, 1, b.size() - 1))
            return {};
        auto name = e.Key.substr(0, e.Key.find('('));
        std::string s(b.begin() + 1, b.end() - 2);
        if (s.substr(0, name.size()) != name)
            return {};
        return B(s.substr(name.size()));
    }
    std::optional<Val> Walk(const Chan& c, Cursor& cur, bool& permanent) override
    {
        // a session that couldn't be used only makes reads fail
        if (Cache.count(c.Key))
            return Value(c, Cache[c.Key]);
        auto& e = cur.Next(c.Key, c.Str());
        auto p = Accept(e);
        if (p)
            Cache[c.Key] = *p;
        else {
            PBT_CHECK(!e.Clean || Mem[c.Key][0] == 'E', "harness: clean answer " << pbt::hex(e.Got) << " is not accepted");
            return {};
        }
        return Value(c, *p);
    }
    static std::string Number(pbt::Gen& g, bool neg = false)
    {
        char b[40];
        snprintf(b, sizeof(b), g.flip() ? "%.3f" : "%08.2f", (neg && g.flip() ? -1 : 1) * double(g.below(10000000)) / 100.0);
        return b;
    }
    static double ToDouble(const std::string& s)
    {
        char* end = nullptr;
        if (s.empty() || s.find_first_not_of("0123456789.+-") != std::string::npos)
            throw Abandon();
        double d = strtod(s.c_str(), &end);
        if (*end)
            throw Abandon();
        return d;
    }
    Bytes Tamper(const Bytes& q, Bytes a) override
    {
        if (a.size() < 5)
            return G.flip() ? Bytes{NAK} : Framed(STX, "(ERR13)");
        std::string body(a.begin() + 1, a.end() - 2);
        auto name = body.substr(0, body.find('('));
        switch (G.below(6)) {
            case 0:
                body[G.below(name.size() + 1) % body.size()] ^= char(1 << G.below(4));
                return Framed(a[0], body);
            case 1:
                return Framed(a[0], "(ERR" + std::to_string(G.below(20)) + ")");
            case 2:
                return Framed(a[0], name);
            case 3:
                return Bytes{uint8_t(G.flip() ? NAK : ACK)};
            case 4:
                return Framed(a[0], name + G.pick<std::string>({"( )", "(", "()", ")", "( ,)", "(,,)", "(1", "", "((", "(\r\n)", "()\r\n", "( )\r\n"}));
            default:
                return Framed(a[0], "");
        }
    }
};

class IecModeC: public IecMeter
{
public:
    IecModeC(pbt::Gen& g, SimPort& p): IecMeter(g, p, "iec_mode_c")
    {
        ReadCmd = "R2";
        Baud = StartBaud = 300;
        GenPassword(false);
    }
    void AddChannel() override
    {
        static const std::vector<const char*> A = {"1.8.0()", "1.8.1()", "14.7.0()", "0.0.0()", "32.7.0()", "C.1.0()"};
        static const std::vector<const Fmt*> F = {&FDouble, &FDouble, &FU32, &FS32, &FU64, &FS16, &FU8};
        std::string a = G.pick(A);
        auto f = G.pick(F);
        auto& c = New("default", a, f);
        Format(c, f != &FDouble);
        c.Key = a;
        Set(a);
    }
    void Set(const std::string& a)
    {
        if (G.chance(1, 30))
            Mem[a] = "ERR05";
        else
            Mem[a] = "(" + (G.chance(1, 4) ? std::to_string(G.below(120)) : Number(G)) + G.pick<std::string>({"", "*kWh", "*V"}) + ")";
    }
    void Mutate() override
    {
        for (auto& m: Mem)
            Set(m.first);
        if (G.chance(1, 6)) {
            State = Idle;
            Baud = G.flip() ? StartBaud : 9600; // a meter may remember the speed
        }
    }
    std::optional<Val> Value(const Chan& c, const Bytes& p) override
    {
        std::string s(p.begin(), p.end());
        auto at = s.find('(');
        if (at == std::string::npos)
            return {};
        auto v = s.substr(at + 1);
        auto end = v.find_first_of("*)");
        if (end == std::string::npos)
            throw Abandon();
        auto d = ToDouble(v.substr(0, end));
        if (c.F->Kind == Fmt::D)
            return Val::D(d, 1e-14);
        if (v[0] == '-' || v[0] == '+')
            throw Abandon();
        auto n = uint64_t(d);
        if (c.F->Width < 8 && n >= 1ull << (c.F->Width * 8 - (c.F->Kind == Fmt::S ? 1 : 0)))
            throw Abandon(); // doesn't fit the format
        return Val::UInt(n);
    }
};

class Neva: public IecMeter
{
public:
    std::map<std::string, std::vector<double>> Values;
    Neva(pbt::Gen& g, SimPort& p): IecMeter(g, p, "neva")
    {
        GenPassword(true);
    }
    void AddChannel() override
    {
        static const std::vector<const char*> T = {"default", "power_factor", "temperature", "item_1", "item_2", "item_3", "item_4", "item_5",
                                                   "obis_cdef", "obis_cdef_pf", "obis_cdef_temp", "obis_cdef_1", "obis_cdef_2", "obis_cdef_3", "obis_cdef_4", "obis_cdef_5"};
        std::string t = G.pick(T);
        uint32_t a = G.pick<uint32_t>({0x0F0880FF, 0x100700FF, 0x030880FF, 0x00090100, 0xFFFFFFFF});
        if (t == "temperature" || t == "obis_cdef_temp")
            a = 0x600900FF;
        if (t == "power_factor" || t == "obis_cdef_pf")
            a = 0x0D07FFFF;
        auto& c = New(t, AddrText(G, a), &FDouble);
        c.Key = Hex(a, 8) + "()";
        Set(c.Key);
    }
    void Set(const std::string& k)
    {
        std::string s = "(";
        size_t n = k[0] == '6' || k.substr(0, 2) == "0D" ? 1 : G.flip() ? 5 : G.uniform(1, 5);
        for (size_t i = 0; i < n; ++i) {
            char b[32];
            if (k[0] == '6')
                snprintf(b, sizeof(b), "%03d", int(G.below(60) + 100 * G.below(2)));
            else if (k.substr(0, 2) == "0D")
                snprintf(b, sizeof(b), "%02d.%03d", int(G.below(3) * 10), int(G.below(1000)));
            else
                snprintf(b, sizeof(b), "%s", Number(G).c_str());
            s += (i ? "," : "") + std::string(b);
        }
        Mem[k] = G.chance(1, 40) ? "ERR12" : s + ")";
    }
    void Mutate() override
    {
        for (auto& m: Mem)
            Set(m.first);
        if (G.chance(1, 8))
            State = Idle;
    }
    std::optional<Val> Value(const Chan& c, const Bytes& p) override
    {
        std::string s(p.begin(), p.end());
        if (s.size() < 3 || s.front() != '(' || s.back() != ')')
            return {};
        std::vector<std::string> items(1);
        for (char ch: s.substr(1, s.size() - 2))
            if (ch == ',')
                items.push_back("");
            else
                items.back() += ch;
        static const std::map<std::string, size_t> Idx = {{"item_2", 1}, {"item_3", 2}, {"item_4", 3}, {"item_5", 4},
                                                          {"obis_cdef_2", 1}, {"obis_cdef_3", 2}, {"obis_cdef_4", 3}, {"obis_cdef_5", 4}};
        size_t i = Idx.count(c.Type) ? Idx.at(c.Type) : 0;
        for (size_t k = 0; k <= i; ++k) {
            if (k >= items.size())
                return {};
            if (items[k].find_first_not_of(" \r\n\t") == std::string::npos)
                return {}; // nothing there
            ToDouble(items[k]);
        }
        double v = ToDouble(items[i]);
        if (c.Type == "temperature" || c.Type == "obis_cdef_temp")
            v = v >= 100 ? -(v - 100) : v;
        if (c.Type == "power_factor" || c.Type == "obis_cdef_pf")
            v = v >= 20 ? v - 20 : v >= 10 ? -(v - 10) : v;
        auto r = Val::D(v, 1e-12);
        return r;
    }
};

class EnergomeraModeC: public IecMeter
{
public:
    EnergomeraModeC(pbt::Gen& g, SimPort& p): IecMeter(g, p, "energomera_iec_mode_c")
    {
        SumBcc = true;
        GenPassword(true);
    }
    void AddChannel() override
    {
        static const std::vector<const char*> T = {"default", "default", "item_1", "item_2", "item_3", "item_4", "item_5", "date", "time"};
        std::string t = G.pick(T);
        std::string a = t == "date" ? "DATE_()" : t == "time" ? "TIME_()" : G.pick<std::string>({"ET0PE()", "VOLTA()", "COS_f()", "FREQU()", "ENM01(1)", "ENM01(2)"});
        bool u64 = t == "default" && G.chance(1, 4);
        auto& c = New(t, a, u64 ? &FU64 : t == "date" || t == "time" ? &FU32 : &FDouble);
        Format(c, u64);
        c.Key = a;
        c.Offset = t.rfind("item_", 0) == 0 ? unsigned(t[5] - '1') : 0;
        Set(a);
    }
    void Set(const std::string& k)
    {
        char b[64];
        std::string s;
        if (k == "DATE_()") {
            snprintf(b, sizeof(b), "(%02d.%02d.%02d.%02d)\r\n", int(G.below(7)), int(1 + G.below(28)), int(1 + G.below(12)), int(G.below(100)));
            s = b;
        } else if (k == "TIME_()") {
            snprintf(b, sizeof(b), "(%02d:%02d:%02d)\r\n", int(G.below(24)), int(G.below(60)), int(G.below(60)));
            s = b;
        } else {
            for (size_t n = G.flip() ? 1 : G.uniform(1, 6); n-- > 0;)
                s += "(" + Number(G, true) + ")\r\n";
        }
        Mem[k] = G.chance(1, 40) ? "ERR12" : s;
    }
    void Mutate() override
    {
        for (auto& m: Mem)
            Set(m.first);
        if (G.chance(1, 8))
            State = Idle;
    }
    std::optional<Val> Value(const Chan& c, const Bytes& p) override
    {
        std::string s(p.begin(), p.end());
        if (s.size() < 5 || s.front() != '(' || s.substr(s.size() - 3) != ")\r\n")
            return {};
        s = s.substr(1, s.size() - 4);
        if (c.Type == "date" || c.Type == "time") {
            if (s.size() != (c.Type == "date" ? 11 : 8))
                throw Abandon();
            std::string d;
            for (size_t i = c.Type == "date" ? 3 : 0; i < s.size(); ++i) {
                if (isdigit(uint8_t(s[i])))
                    d += s[i];
                else if (s[i] != (c.Type == "date" ? '.' : ':'))
                    throw Abandon();
            }
            return Val::UInt(strtoull(d.c_str(), nullptr, 10));
        }
        std::vector<std::string> items;
        for (;;) {
            auto at = s.find(")\r\n(");
            items.push_back(s.substr(0, at));
            if (at == std::string::npos)
                break;
            s = s.substr(at + 4);
        }
        if (c.Offset >= items.size())
            return {};
        double d = ToDouble(items[c.Offset]);
        if (c.F == &FU64) {
            if (d < 0)
                throw Abandon();
            return Val::UInt(uint64_t(d));
        }
        return Val::D(d, 1e-14);
    }
};

// Group reading: one request for up to 11 registers, one answer with all values
class EnergomeraFast: public IecMeter
{
public:
    std::map<uint32_t, std::string> Params; // address -> "12.3" or "E12"
    EnergomeraFast(pbt::Gen& g, SimPort& p): IecMeter(g, p, "energomera_iec")
    {
        SumBcc = true;
        UseCache = false;
    }
    void AddChannel() override
    {
        uint32_t param = G.pick<uint32_t>({0x1001, 0x1004, 0x1008, 0x4001, 0x4002, 0x400C, 0x0001, 0xFFFF, 0x4003, 0x4004, 0x5001, 0x5002});
        uint32_t a = param << 8 | uint32_t(G.uniform(1, G.flip() ? 3 : 16));
        auto& c = New("group_single", AddrText(G, a), &FDouble);
        c.Id = a;
        c.Key = "group";
        Params[a] = "";
        Fill(a);
    }
    void Fill(uint32_t a)
    {
        auto& v = Params[a];
        if (v == "E12" || v == "E17")
            return; // not supported: for ever
        v = G.chance(1, 25) ? G.pick<std::string>({"E12", "E17", "E09", "E3"}) : Number(G, true);
    }
    void Mutate() override
    {
        for (auto& m: Params)
            Fill(m.first);
    }
    std::map<uint16_t, uint16_t> Parse(const Bytes& q)
    {
        std::string s(q.begin(), q.end());
        auto head = "/?" + Id + "!\x01R1\x02GROUP(";
        PBT_CHECK(s.size() > head.size() + 3 && s.substr(0, head.size()) == head, "bad request " << pbt::quote(s));
        PBT_CHECK(q[q.size() - 2] == ETX && q[q.size() - 3] == ')' && q.back() == Bcc(q, Id.size() + 4, q.size() - 1), "bad request " << pbt::quote(s));
        std::map<uint16_t, uint16_t> r;
        for (size_t i = head.size(); i < s.size() - 3;) {
            unsigned p = 0, m = 0;
            int n = 0;
            PBT_CHECK(sscanf(s.c_str() + i, "%4X(%4X)%n", &p, &m, &n) == 2 && n > 0, "bad request " << pbt::quote(s));
            PBT_CHECK(!r.count(uint16_t(p)), "parameter is requested twice: " << pbt::quote(s));
            r[uint16_t(p)] = uint16_t(m);
            i += size_t(n);
        }
        PBT_CHECK(!r.empty(), "empty request");
        return r;
    }
    std::string Request(const Bytes& q, std::optional<Bytes>& a) override
    {
        PBT_CHECK(PortBaud == 9600, "request with wrong port settings");
        std::string body;
        for (auto& p: Parse(q)) {
            body += Hex(p.first, 4);
            for (unsigned b = 1; b <= 16; ++b)
                if (p.second >> (b - 1) & 1) {
                    auto it = Params.find(uint32_t(p.first) << 8 | b);
                    PBT_CHECK(it != Params.end(), "request of an unknown value " << p.first << " " << b);
                    body += "(" + it->second + ")";
                }
        }
        a = Framed(STX, body);
        return "group";
    }
    std::optional<Bytes> Accept(const Exchange& e) override
    {
        auto& b = e.Got;
        if (b.size() < 4 || b[0] != STX || b[b.size() - 2] != ETX || b.back() != Bcc(b, 1, b.size() - 1))
            return {};
        return Bytes(b.begin() + 1, b.end() - 2);
    }
    // value of every requested address; nullopt if the answer doesn't fit the request
    std::optional<std::map<uint32_t, std::string>> Decode(const Exchange& e)
    {
        auto p = Accept(e);
        if (!p)
            return {};
        std::string s(p->begin(), p->end());
        std::map<uint32_t, std::string> r;
        size_t at = 0;
        for (auto& q: Parse(e.Q)) {
            if (s.substr(at, 4) != Hex(q.first, 4)) {
                if (at + 4 <= s.size() && strspn(s.c_str() + at, "0123456789abcdefABCDEF") == 4 && strtoul(s.substr(at, 4).c_str(), nullptr, 16) == q.first)
                    throw Abandon(); // lower case
                for (size_t i = at; i < std::min(at + 4, s.size()); ++i)
                    if (!isxdigit(uint8_t(s[i])))
                        throw Abandon(); // leading blanks and the like
                return {};
            }
            at += 4;
            for (unsigned b = 1; b <= 16; ++b)
                if (q.second >> (b - 1) & 1) {
                    if (at >= s.size() || s[at] != '(')
                        return {};
                    auto end = s.find(')', at);
                    if (end == std::string::npos)
                        return {};
                    auto v = s.substr(at + 1, end - at - 1);
                    if (v.empty())
                        return {};
                    if (v[0] == 'E') {
                        if (v.size() < 2 || v.find_first_not_of("0123456789", 1) != std::string::npos)
                            throw Abandon();
                    } else
                        ToDouble(v);
                    r[uint32_t(q.first) << 8 | b] = v;
                    at = end + 1;
                }
        }
        return r;
    }
    std::optional<Val> Value(const Chan&, const Bytes&) override
    {
        return {};
    }
    Bytes Tamper(const Bytes&, Bytes a) override
    {
        std::string body(a.begin() + 1, a.end() - 2);
        switch (G.below(4)) {
            case 0:
                body[G.below(4)] ^= char(1 << G.below(2)); // other parameter
                break;
            case 1: {
                // a value is missing
                auto at = body.rfind('(');
                body.resize(at);
                break;
            }
            case 2:
                body = "(ERR" + std::to_string(G.below(20)) + ")";
                break;
            default:
                body.resize(G.below(body.size()));
        }
        return Framed(STX, body);
    }
};
