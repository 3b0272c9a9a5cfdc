// Simulators of the meters' and relays' protocols, written from the protocol descriptions and not from the code under
// test. A simulator checks every request byte by byte, answers it from its memory and tells which received bytes are an
// acceptable answer and which value they carry.
#pragma once
#include "ref.h"
#include "register.h"
#include "serial_config.h"
#include "simport.h"
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <optional>

using Bytes = std::vector<uint8_t>;

struct Abandon // the case leaves what the property speaks about
{};

struct Val
{
    bool IsText = false;
    std::string Text;
    double Number = 0;
    double Eps = 0; // relative
    static Val Int(int64_t v)
    {
        return T(std::to_string(v));
    }
    static Val UInt(uint64_t v)
    {
        return T(std::to_string(v));
    }
    static Val T(const std::string& s)
    {
        Val r;
        r.IsText = true;
        r.Text = s;
        return r;
    }
    static Val D(double d, double eps)
    {
        if (!std::isfinite(d))
            throw Abandon();
        Val r;
        r.Number = d;
        r.Eps = eps;
        return r;
    }
    bool Is(const std::string& text) const
    {
        if (IsText)
            return text == Text;
        char* end = nullptr;
        double d = strtod(text.c_str(), &end);
        return !text.empty() && !*end && std::abs(d - Number) <= Eps * std::abs(Number);
    }
    std::string Str() const
    {
        if (IsText)
            return Text;
        char b[40];
        snprintf(b, sizeof(b), "%.17g", Number);
        return b;
    }
};

struct Fmt
{
    const char* Name;
    unsigned Width;
    enum K
    {
        U,
        S,
        BCD,
        F,
        D
    } Kind;
    // n: the number, most significant byte first
    Val Value(uint64_t n) const
    {
        switch (Kind) {
            case U:
                return Val::UInt(n);
            case S:
                if (Width < 8 && (n >> (Width * 8 - 1)) & 1)
                    return Val::Int(int64_t(n | (~0ull << (Width * 8))));
                return Val::Int(int64_t(n));
            case BCD: {
                uint64_t r = 0;
                for (int i = int(Width) * 2 - 1; i >= 0; --i)
                    r = r * 10 + ((n >> (4 * i)) & 0xf);
                return Val::UInt(r);
            }
            case F: {
                float f;
                uint32_t x = uint32_t(n);
                memcpy(&f, &x, 4);
                return Val::D(f, 1e-6);
            }
            default: {
                double d;
                memcpy(&d, &n, 8);
                return Val::D(d, 1e-14);
            }
        }
    }
    // bytes of a generated value, most significant first
    Bytes Gen(pbt::Gen& g) const
    {
        uint64_t n = 0;
        switch (Kind) {
            case BCD:
                for (unsigned i = 0; i < Width * 2; ++i)
                    n = n << 4 | g.below(10);
                break;
            case F: {
                float f = float(g.irange(-1000000, 1000000)) / float(1 << g.below(12));
                uint32_t x;
                memcpy(&x, &f, 4);
                n = x;
                break;
            }
            case D: {
                double d = double(g.irange(-1000000000, 1000000000)) / double(1 << g.below(20));
                memcpy(&n, &d, 8);
                break;
            }
            default:
                n = g.bits(Width * 8);
        }
        Bytes r;
        for (unsigned i = Width; i-- > 0;)
            r.push_back(uint8_t(n >> (8 * i)));
        return r;
    }
};
inline uint64_t BE(const Bytes& b, size_t from, size_t n)
{
    uint64_t r = 0;
    for (size_t i = 0; i < n; ++i)
        r = r << 8 | b.at(from + i);
    return r;
}
inline uint64_t LE(const Bytes& b, size_t from, size_t n)
{
    uint64_t r = 0;
    for (size_t i = n; i-- > 0;)
        r = r << 8 | b.at(from + i);
    return r;
}
static const Fmt FU8{"u8", 1, Fmt::U}, FS8{"s8", 1, Fmt::S}, FU16{"u16", 2, Fmt::U}, FS16{"s16", 2, Fmt::S},
    FU24{"u24", 3, Fmt::U}, FS24{"s24", 3, Fmt::S}, FU32{"u32", 4, Fmt::U}, FS32{"s32", 4, Fmt::S}, FU64{"u64", 8, Fmt::U},
    FS64{"s64", 8, Fmt::S}, FB8{"bcd8", 1, Fmt::BCD}, FB16{"bcd16", 2, Fmt::BCD}, FB24{"bcd24", 3, Fmt::BCD},
    FB32{"bcd32", 4, Fmt::BCD}, FFloat{"float", 4, Fmt::F}, FDouble{"double", 8, Fmt::D};

inline std::string Hex(uint64_t v, int w)
{
    char b[32];
    snprintf(b, sizeof(b), "%0*llX", w, (unsigned long long)v);
    return b;
}
inline std::string AddrText(pbt::Gen& g, uint64_t v)
{
    char b[32];
    snprintf(b, sizeof(b), g.flip() ? "0x%llX" : g.flip() ? "0x%04llx" : "%llu", (unsigned long long)v);
    return b;
}
inline uint8_t Crc8(const Bytes& b, size_t from, size_t to) // Dallas/Maxim
{
    uint8_t crc = 0;
    for (size_t i = from; i < to; ++i) {
        crc ^= b[i];
        for (int k = 0; k < 8; ++k)
            crc = crc & 1 ? (crc >> 1) ^ 0x8C : crc >> 1;
    }
    return crc;
}
inline uint8_t Sum(const Bytes& b, size_t from, size_t to)
{
    unsigned s = 0;
    for (size_t i = from; i < to; ++i)
        s += b[i];
    return uint8_t(s);
}

struct Chan
{
    Json::Value J;
    std::string Key; // what the request asks for; channels with the same key may share an answer
    const Fmt* F = nullptr;
    unsigned Offset = 0;
    std::string Type;
    uint32_t Id = 0;
    bool Writable = false;
    std::string Str() const
    {
        return J["reg_type"].asString() + " " + J["address"].asString() + (J.isMember("format") ? " " + J["format"].asString() : "");
    }
};

struct Exchange
{
    Bytes Q;
    std::string Key;
    bool Clean = false;
    size_t GotFrom = 0; // index in SimPort::AllGot
    Bytes Got;
    std::string Fault;
};

class Cursor
{
public:
    std::vector<Exchange>& Log;
    size_t At = 0;
    explicit Cursor(std::vector<Exchange>& l): Log(l)
    {}
    Exchange& Next(const std::string& key, const std::string& who)
    {
        PBT_CHECK(At < Log.size(), who << ": no request \"" << key << "\"");
        auto& e = Log[At++];
        PBT_EQ(e.Key, key, who << ": request");
        return e;
    }
};

class Meter
{
public:
    pbt::Gen& G;
    SimPort& Port;
    Json::Value Config;
    std::vector<Chan> Chans;
    std::vector<Exchange> Log;
    bool SkipsNoise = false;  // bytes that arrived before a request are dropped
    bool LateOk = false;      // requests are numbered
    bool UseCache = false;
    bool SevenBits = false;
    int FaultOf1000 = 0;
    std::map<std::string, Bytes> Cache;
    int64_t DelayNs = 2000000;

    Meter(pbt::Gen& g, SimPort& p, const std::string& protocol): G(g), Port(p)
    {
        Config["protocol"] = protocol;
        Config["name"] = "meter";
        Config["id"] = "meter";
    }
    virtual ~Meter() = default;
    virtual void AddChannel() = 0;
    virtual void Mutate() = 0;
    // Checks a request; returns its key and the right answer (nullopt: the device keeps silence)
    virtual std::string Request(const Bytes& q, std::optional<Bytes>& answer) = 0;
    // Payload of an acceptable answer
    virtual std::optional<Bytes> Accept(const Exchange& e) = 0;
    virtual std::optional<Val> Value(const Chan& c, const Bytes& payload) = 0;
    // A well-formed answer which isn't an answer to the request (or a wrong one)
    virtual Bytes Tamper(const Bytes& q, Bytes answer) = 0;
    // Requests that aren't exchanges
    virtual bool Ignored(const Bytes&)
    {
        return false;
    }
    virtual void BeginCycle()
    {}
    // what the device must make of its register by the log of exchanges
    virtual std::optional<Val> Walk(const Chan& c, Cursor& cur, bool& /*permanent*/)
    {
        if (UseCache) {
            auto it = Cache.find(c.Key);
            if (it != Cache.end())
                return Value(c, it->second);
        }
        auto& e = cur.Next(c.Key, c.Str());
        auto p = Accept(e);
        if (e.Clean)
            PBT_CHECK(p, "harness: clean answer " << pbt::hex(e.Got) << " is not accepted");
        if (!p)
            return std::nullopt;
        if (UseCache)
            Cache[c.Key] = *p;
        return Value(c, *p);
    }

    void OnWrite(const Bytes& q)
    {
        if (Ignored(q))
            return;
        Exchange e;
        e.Q = q;
        e.GotFrom = Port.AllGot.size();
        e.Clean = Port.Rx.empty();
        std::optional<Bytes> answer;
        e.Key = Request(q, answer);
        if (G.replaying())
            G.note(e.Key + " <- " + pbt::hex(q));
        if (!answer) {
            e.Clean = false;
            Log.push_back(e);
            return;
        }
        Bytes a = *answer;
        bool drop = false;
        int64_t late = 0;
        if (FaultOf1000 && G.below(1000) >= uint64_t(1000 - FaultOf1000)) {
            e.Clean = false;
            switch (G.weighted({3, 3, 3, 2, 2, 4, 1, unsigned(LateOk ? 3 : 0)})) {
                case 0:
                    drop = true;
                    e.Fault = "no answer";
                    break;
                case 1:
                    for (size_t n = G.size(1, 3); n-- > 0;)
                        a[G.below(a.size())] ^= uint8_t(1 << G.below(SevenBits ? 7 : 8));
                    e.Fault = "bits";
                    break;
                case 2:
                    a.resize(G.below(a.size()));
                    e.Fault = "cut";
                    break;
                case 3: {
                    auto x = G.bytes(1, 12);
                    a.insert(G.flip() ? a.end() : a.begin(), x.begin(), x.end());
                    e.Fault = "extra";
                    break;
                }
                case 4:
                    a = G.bytes(1, G.chance(1, 6) ? 300 : 40);
                    e.Fault = "garbage";
                    break;
                case 5:
                    a = Tamper(q, a);
                    e.Fault = "tampered";
                    break;
                case 6:
                    a.insert(a.end(), answer->begin(), answer->end());
                    e.Fault = "twice";
                    break;
                default:
                    late = 1;
                    e.Fault = "late";
            }
            if (SevenBits)
                for (auto& b: a)
                    b &= 0x7f;
            pbt::label(e.Fault.c_str());
        }
        if (G.replaying())
            G.note("   " + e.Fault + (drop ? "" : " -> " + pbt::hex(a)));
        Log.push_back(e);
        if (drop || a.empty())
            return;
        if (late) {
            Late = a;
            return;
        }
        // a late answer to the previous request comes first
        if (!Late.empty()) {
            Log.back().Clean = false;
            Port.Push(DelayNs, Late);
            Late.clear();
        }
        // in one piece or with gaps below the frame timeout
        if (a.size() > 1 && Config["frame_timeout_ms"].asInt() >= 5 && G.chance(1, 4)) {
            size_t k = G.uniform(1, a.size() - 1);
            Port.Push(DelayNs, Bytes(a.begin(), a.begin() + long(k)));
            Port.Push(DelayNs + 1000000, Bytes(a.begin() + long(k), a.end()));
        } else
            Port.Push(DelayNs, a);
    }
    // fill in what the device received
    void Collect()
    {
        for (size_t i = 0; i < Log.size(); ++i) {
            size_t to = i + 1 < Log.size() ? Log[i + 1].GotFrom : Port.AllGot.size();
            Log[i].Got.clear();
            for (size_t k = Log[i].GotFrom; k < to; ++k)
                Log[i].Got.insert(Log[i].Got.end(), Port.AllGot[k].begin(), Port.AllGot[k].end());
        }
    }
    Bytes Late;
    Chan& New(const std::string& type, const std::string& address, const Fmt* f)
    {
        Chan c;
        c.J["name"] = "c" + std::to_string(Chans.size() + 1);
        c.J["reg_type"] = type;
        c.J["address"] = address;
        c.Type = type;
        c.F = f;
        Chans.push_back(c);
        return Chans.back();
    }
    void Format(Chan& c, bool always)
    {
        if (always || G.flip())
            c.J["format"] = c.F->Name;
    }
};

// ---------------------------------------------------------------- Mercury 200: id4 cmd .. crc
class Mercury200: public Meter
{
public:
    uint32_t Id;
    std::map<uint8_t, Bytes> Mem;
    Mercury200(pbt::Gen& g, SimPort& p): Meter(g, p, "mercury200")
    {
        Id = uint32_t(g.bits(32));
        Config["slave_id"] = std::to_string(Id);
        UseCache = true;
    }
    void AddChannel() override
    {
        uint8_t cmd = G.pick<uint8_t>({0x27, 0x63, 0x29, 0x81});
        if (!Mem.count(cmd))
            Fill(cmd);
        auto& m = Mem[cmd];
        static const std::vector<std::pair<const char*, const Fmt*>> T = {{"param8", &FU8}, {"param16", &FB16}, {"param24", &FB24}, {"param32", &FB32}};
        auto t = G.pick(T);
        bool other = G.chance(1, 4);
        if (other)
            t.second = G.pick({&FU8, &FU16, &FU24, &FU32, &FS16, &FS32, &FB8});
        // byte offsets above the number of bits aren't configurable
        unsigned off = unsigned(G.uniform(0, std::min(m.size() >= t.second->Width ? m.size() - t.second->Width : 0, size_t(t.second->Width * 8 - 1))));
        auto& c = New(t.first, AddrText(G, cmd << 8 | off), t.second);
        Format(c, other);
        c.Id = cmd;
        c.Offset = off;
        c.Key = Hex(cmd, 2);
    }
    void Fill(uint8_t cmd)
    {
        size_t n = Mem.count(cmd) ? Mem[cmd].size() : G.chance(1, 10) ? 93 - G.below(4) : 4 + G.below(20);
        Bytes b;
        for (size_t i = 0; i < n; ++i)
            b.push_back(uint8_t(G.below(10) << 4 | G.below(10)));
        Mem[cmd] = b;
    }
    void Mutate() override
    {
        for (auto& m: Mem)
            Fill(m.first);
    }
    std::string Request(const Bytes& q, std::optional<Bytes>& a) override
    {
        PBT_CHECK(q.size() == 7 && BE(q, 0, 4) == Id && ref::crcOk(q), "bad request " << pbt::hex(q) << " to " << Id);
        PBT_CHECK(Mem.count(q[4]), "request of an unknown command " << pbt::hex(q));
        Bytes r(q.begin(), q.begin() + 5);
        r.insert(r.end(), Mem[q[4]].begin(), Mem[q[4]].end());
        ref::appendCrc(r);
        a = r;
        return Hex(q[4], 2);
    }
    std::optional<Bytes> Accept(const Exchange& e) override
    {
        auto& b = e.Got;
        if (b.size() < 7 || !ref::crcOk(b) || !std::equal(b.begin(), b.begin() + 5, e.Q.begin()))
            return {};
        return Bytes(b.begin() + 5, b.end() - 2);
    }
    std::optional<Val> Value(const Chan& c, const Bytes& p) override
    {
        if (c.Offset + c.F->Width > p.size())
            return {};
        return c.F->Value(BE(p, c.Offset, c.F->Width));
    }
    Bytes Tamper(const Bytes&, Bytes a) override
    {
        a.resize(a.size() - 2);
        switch (G.below(4)) {
            case 0:
                a[G.below(4)] ^= uint8_t(1 << G.below(8));
                break;
            case 1:
                a[4] ^= uint8_t(1 << G.below(8));
                break;
            case 2:
                a.resize(5 + G.below(a.size() - 4));
                break;
            default: {
                size_t n = 98 - a.size();
                auto x = G.bytes(0, n);
                a.insert(a.end(), x.begin(), x.end());
            }
        }
        ref::appendCrc(a);
        return a;
    }
};

// ---------------------------------------------------------------- base of Mercury 230 and Milur: a session by password
class EmMeter: public Meter
{
public:
    uint32_t Id = 0;
    unsigned W = 1; // address bytes
    unsigned Level = 1;
    Bytes Password;
    bool Session = false; // of the meter
    bool Connected = false; // as the driver knows
    bool Retired = false;
    bool Stubborn = false; // forgets a session at once
    using Meter::Meter;
    void Common(uint8_t defaultPassword)
    {
        Password = Bytes(6, defaultPassword);
        if (G.chance(1, 3)) {
            Password = G.bytes(6, 6);
            for (auto b: Password)
                Config["password"].append(b);
        }
        if (G.chance(1, 3)) {
            Level = unsigned(G.uniform(1, 2));
            Config["access_level"] = Level;
        }
    }
    Bytes Frame(const Bytes& body)
    {
        Bytes r;
        for (unsigned i = 0; i < W; ++i)
            r.push_back(uint8_t(Id >> (8 * i)));
        r.insert(r.end(), body.begin(), body.end());
        ref::appendCrc(r);
        return r;
    }
    bool Framed(const Bytes& b)
    {
        if (b.size() < 3 + W || !ref::crcOk(b))
            return false;
        return LE(b, 0, W) == Id;
    }
    Bytes Body(const Bytes& b)
    {
        return Bytes(b.begin() + W, b.end() - 2);
    }
    enum Status
    {
        Ok,
        Error,
        Permanent,
        Closed
    };
    virtual Status Judge(const Exchange& e, Bytes& payload) = 0;
    virtual Bytes OpenAnswer() = 0;
    virtual bool OpenAccepted(const Bytes& got) = 0;
    std::optional<Bytes> Accept(const Exchange&) override
    {
        return {};
    }
    bool WalkOpen(Cursor& cur, const std::string& who)
    {
        auto& e = cur.Next("open", who);
        bool ok = Framed(e.Got) && OpenAccepted(e.Got);
        if (e.Clean)
            PBT_CHECK(ok, "harness: clean open " << pbt::hex(e.Got));
        return ok;
    }
    // the same request follows after opening a session again
    static bool More(const Cursor& cur, const std::string& key)
    {
        return cur.At + 1 < cur.Log.size() && cur.Log[cur.At].Key == "open" && cur.Log[cur.At + 1].Key == key;
    }
    std::optional<Val> Walk(const Chan& c, Cursor& cur, bool& permanent) override
    {
        bool cached = UseCache && c.Key[0] == '5'; // arrays of a Mercury
        if (cached && Cache.count(c.Key))
            return Value(c, Cache[c.Key]);
        if (!Connected && !(Connected = WalkOpen(cur, c.Str())))
            return {};
        for (int tries = 0;; ++tries) {
            auto& e = cur.Next(c.Key, c.Str());
            Bytes payload;
            switch (Judge(e, payload)) {
                case Ok:
                    if (cached)
                        Cache[c.Key] = payload;
                    return Value(c, payload);
                case Permanent:
                    permanent = true;
                    return {};
                case Error:
                    PBT_CHECK(!e.Clean || Retired || Stubborn, "harness: clean answer is an error " << pbt::hex(e.Got));
                    return {};
                case Closed:
                    // how often a request is repeated is up to the driver
                    if (tries > 0) {
                        if (More(cur, c.Key))
                            throw Abandon(); // repeated, or asked for another register
                        Connected = false;
                        return {};
                    }
                    Connected = false;
                    if (!(Connected = WalkOpen(cur, c.Str())))
                        return {};
            }
        }
    }
};

class Mercury230: public EmMeter
{
public:
    std::map<uint16_t, Bytes> Arrays; // key: (array<<4|month)<<8 | tariff
    std::map<uint16_t, Bytes> Params;
    std::set<uint16_t> Unsupported;
    Mercury230(pbt::Gen& g, SimPort& p): EmMeter(g, p, "mercury230")
    {
        if (g.chance(1, 8)) {
            Config["slave_id"] = "";
        } else {
            Id = uint32_t(g.uniform(0, 255));
            Config["slave_id"] = std::to_string(Id);
        }
        UseCache = true;
        Common(1);
    }
    void AddChannel() override
    {
        if (G.chance(2, 5)) {
            bool a12 = G.flip();
            uint16_t key = uint16_t(G.pick<unsigned>({0x0, 0x1, 0x2, 0x3, 0x6}) << 12 | G.below(13) << 8 | G.below(5));
            if (Arrays.count(key) && Arrays[key].size() != (a12 ? 12u : 16u))
                a12 = !a12;
            unsigned idx = unsigned(G.below(a12 ? 3 : 4));
            // tariff, array, month, index
            auto& c = New(a12 ? "array12" : "array", AddrText(G, unsigned(key & 0xf) << 12 | (key >> 8) << 4 | idx), &FU32);
            Format(c, false);
            c.Id = key;
            c.Offset = idx;
            c.Key = "5 " + Hex(key, 4);
            Arrays[key].resize(a12 ? 12 : 16);
            Fill(Arrays[key]);
        } else {
            static const std::vector<std::pair<const char*, const Fmt*>> T = {
                {"param", &FU24}, {"param_sign_active", &FS24}, {"param_sign_reactive", &FS24}, {"param_sign_ignore", &FU24}, {"param_be", &FU16}, {"param", &FU16}, {"param_sign_active", &FS16}};
            auto t = G.pick(T);
            uint16_t key = uint16_t((0x10 + G.below(4)) << 8 | G.below(256));
            if (Params.count(key) && Params[key].size() != t.second->Width)
                return AddChannel();
            auto& c = New(t.first, AddrText(G, key), t.second);
            Format(c, true);
            c.Id = key;
            c.Key = "8 " + Hex(key, 4);
            Params[key].resize(t.second->Width);
            Fill(Params[key]);
            if (G.chance(1, 12))
                Unsupported.insert(key);
        }
    }
    void Fill(Bytes& b)
    {
        for (auto& x: b)
            x = G.byte();
    }
    void Mutate() override
    {
        for (auto& a: Arrays)
            Fill(a.second);
        for (auto& a: Params)
            Fill(a.second);
        if (G.chance(1, 6))
            Session = false;
        Stubborn = FaultOf1000 && G.chance(1, 40);
        if (Stubborn) {
            pbt::label("stubborn");
            Session = false;
        }
    }
    Bytes OpenAnswer() override
    {
        return Frame({0});
    }
    bool OpenAccepted(const Bytes& got) override
    {
        auto b = Body(got);
        if (b.size() == 1 && b[0] && !(b[0] & 0xf))
            throw Abandon(); // the high nibble of the status has no documented meaning
        return b == Bytes{0};
    }
    std::string Request(const Bytes& q, std::optional<Bytes>& a) override
    {
        PBT_CHECK(Framed(q), "bad request " << pbt::hex(q) << " to " << Id);
        auto b = Body(q);
        if (b[0] == 1) {
            Bytes want{1, uint8_t(Level)};
            want.insert(want.end(), Password.begin(), Password.end());
            PBT_EQ(pbt::hex(b), pbt::hex(want), "request to open a session");
            Session = !Stubborn;
            PBT_CHECK(Log.size() < 200, "sessions are opened endlessly");
            a = OpenAnswer();
            return "open";
        }
        PBT_CHECK(b.size() == 3 && (b[0] == 5 || b[0] == 8), "bad request " << pbt::hex(q));
        uint16_t key = uint16_t(b[1] << 8 | b[2]);
        auto& m = b[0] == 5 ? Arrays : Params;
        PBT_CHECK(m.count(key), "request of unknown data " << pbt::hex(q));
        if (!Session)
            a = Frame({5});
        else if (b[0] == 8 && Unsupported.count(key))
            a = Frame({1});
        else
            a = Frame(m[key]);
        return Hex(b[0], 1) + " " + Hex(key, 4);
    }
    Status Judge(const Exchange& e, Bytes& p) override
    {
        if (!Framed(e.Got))
            return Error;
        auto b = Body(e.Got);
        if (b.size() == 1) {
            switch (b[0] & 0xf) {
                case 5:
                    return Closed;
                case 1:
                    return Permanent;
                default:
                    return Error;
            }
        }
        auto q = Body(e.Q);
        auto& m = q[0] == 5 ? Arrays : Params;
        if (b.size() != m[uint16_t(q[1] << 8 | q[2])].size())
            return Error;
        p = b;
        return Ok;
    }
    std::optional<Val> Value(const Chan& c, const Bytes& b) override
    {
        if (c.Key[0] == '5') {
            size_t o = c.Offset * 4;
            return Val::UInt(uint64_t(b[o + 1]) << 24 | uint64_t(b[o]) << 16 | uint64_t(b[o + 3]) << 8 | b[o + 2]);
        }
        if (b.size() == 2) {
            unsigned v = c.Type == "param_be" ? unsigned(b[0]) << 8 | b[1] : unsigned(b[1]) << 8 | b[0];
            return c.F->Value(v);
        }
        int64_t v = int64_t(b[0]) << 16 | int64_t(b[2]) << 8 | b[1];
        if (c.Type.rfind("param_sign", 0) == 0) {
            bool neg = c.Type == "param_sign_active" ? b[0] & 0x80 : c.Type == "param_sign_reactive" ? b[0] & 0x40 : false;
            v &= 0x3fffff;
            return Val::Int(neg ? -v : v);
        }
        return c.F->Value(uint64_t(v));
    }
    Bytes Tamper(const Bytes&, Bytes a) override
    {
        auto b = Body(a);
        auto id = Id;
        switch (G.below(4)) {
            case 0: {
                Bytes r{uint8_t(Id ^ (1u << G.below(8)))};
                r.insert(r.end(), b.begin(), b.end());
                ref::appendCrc(r);
                return r;
            }
            case 1:
                return Frame({uint8_t(G.pick({2, 3, 4, 5, 7, 9, 0, 1}))});
            case 2:
                b.resize(G.below(b.size() + 1));
                return Frame(b);
            default: {
                auto x = G.bytes(1, 80);
                b.insert(b.end(), x.begin(), x.end());
                return Frame(b);
            }
        }
    }
};

class Milur: public EmMeter
{
public:
    std::map<uint8_t, Bytes> Mem;
    Milur(pbt::Gen& g, SimPort& p): EmMeter(g, p, "milur")
    {
        Id = uint32_t(g.flip() ? g.uniform(1, 255) : 256 + g.bits(31));
        W = Id > 255 ? 4 : 1;
        Config["slave_id"] = g.flip() ? std::to_string(Id) : "0x" + Hex(Id, 1);
        Common(0xff);
    }
    bool Ignored(const Bytes& q) override
    {
        return q == Bytes{0xff}; // a dummy packet which makes the meter operational
    }
    void AddChannel() override
    {
        struct T
        {
            const char* Type;
            const Fmt *A, *B;
            unsigned W;
        };
        static const std::vector<T> t = {{"param", &FU24, &FS24, 3}, {"power", &FS32, &FU32, 4}, {"energy", &FB32, &FB32, 4}, {"freq", &FU16, &FS16, 2}, {"power_factor", &FS16, &FU16, 2}};
        auto x = G.pick(t);
        uint8_t addr = G.byte();
        if (Mem.count(addr) && Mem[addr].size() != x.W)
            return AddChannel();
        bool other = G.chance(1, 4);
        auto& c = New(x.Type, AddrText(G, addr), other ? x.B : x.A);
        Format(c, other);
        c.Id = addr;
        c.Key = Hex(addr, 2);
        Mem[addr].resize(x.W);
        Fill(Mem[addr]);
    }
    void Fill(Bytes& b)
    {
        bool bcd = G.flip();
        for (auto& x: b)
            x = bcd ? uint8_t(G.below(10) << 4 | G.below(10)) : G.byte();
    }
    void Mutate() override
    {
        for (auto& a: Mem)
            Fill(a.second);
        if (G.chance(1, 6))
            Session = false;
        Stubborn = FaultOf1000 && G.chance(1, 40);
        if (Stubborn) {
            pbt::label("stubborn");
            Session = false;
        }
    }
    Bytes OpenAnswer() override
    {
        return Frame({8, uint8_t(Level)});
    }
    bool OpenAccepted(const Bytes& got) override
    {
        return Body(got) == Bytes{8, uint8_t(Level)};
    }
    std::string Request(const Bytes& q, std::optional<Bytes>& a) override
    {
        PBT_CHECK(Framed(q), "bad request " << pbt::hex(q) << " to " << Id);
        auto b = Body(q);
        if (b[0] == 8) {
            Bytes want{8, uint8_t(Level)};
            want.insert(want.end(), Password.begin(), Password.end());
            PBT_EQ(pbt::hex(b), pbt::hex(want), "request to open a session");
            Session = !Stubborn;
            PBT_CHECK(Log.size() < 200, "sessions are opened endlessly");
            a = OpenAnswer();
            return "open";
        }
        PBT_CHECK(b.size() == 2 && b[0] == 1 && Mem.count(b[1]), "bad request " << pbt::hex(q));
        if (!Session)
            a = Frame({0x81, 8, 0});
        else {
            Bytes r{1, b[1], uint8_t(Mem[b[1]].size())};
            r.insert(r.end(), Mem[b[1]].begin(), Mem[b[1]].end());
            a = Frame(r);
        }
        return Hex(b[1], 2);
    }
    Status Judge(const Exchange& e, Bytes& p) override
    {
        if (!Framed(e.Got))
            return Error;
        auto b = Body(e.Got);
        auto addr = Body(e.Q)[1];
        if (b.size() == 3 && b[0] & 0x80)
            return b[1] == 8 ? Closed : Error;
        size_t n = Mem[addr].size();
        if (b.size() != 3 + n || b[0] != 1 || b[1] != addr || b[2] != n)
            return Error;
        p = Bytes(b.begin() + 3, b.end());
        return Ok;
    }
    std::optional<Val> Value(const Chan& c, const Bytes& b) override
    {
        if (c.Type == "energy") {
            Bytes s = b;
            for (auto& x: s)
                x = uint8_t(x >> 4 | x << 4);
            return c.F->Value(LE(s, 0, 4));
        }
        return c.F->Value(LE(b, 0, b.size()));
    }
    Bytes Tamper(const Bytes& q, Bytes a) override
    {
        auto b = Body(a);
        switch (G.below(5)) {
            case 0: {
                auto id = Id;
                Id ^= 1u << G.below(W * 8);
                auto r = Frame(b);
                Id = id;
                return r;
            }
            case 1:
                return Frame({uint8_t(Body(q)[0] | 0x80), uint8_t(G.pick({8, 1, 2, 6, 8, 13, 77})), 0});
            case 2:
                b[G.below(std::min<size_t>(3, b.size()))] ^= uint8_t(1 << G.below(7));
                return Frame(b);
            case 3:
                b.resize(G.below(b.size() + 1));
                return Frame(b);
            default: {
                auto x = G.bytes(1, 60);
                b.insert(b.end(), x.begin(), x.end());
                return Frame(b);
            }
        }
    }
};

// ---------------------------------------------------------------- Energomera CE: C0 48 dst src .. crc8 C0 with stuffing
class EnergomeraCe: public Meter
{
public:
    uint16_t Id;
    Bytes Password{0, 0, 0, 0};
    std::map<uint32_t, Bytes> Mem;
    EnergomeraCe(pbt::Gen& g, SimPort& p): Meter(g, p, "energomera_ce")
    {
        Id = uint16_t(g.bits(16));
        Config["slave_id"] = std::to_string(Id);
        if (g.flip()) {
            Password = g.bytes(4, 4);
            for (auto b: Password)
                Config["password"].append(b);
        }
        SkipsNoise = true;
    }
    static uint8_t Crc(const Bytes& b, size_t from, size_t to)
    {
        uint8_t crc = 0;
        for (size_t i = from; i < to; ++i) {
            crc ^= b[i];
            for (int k = 0; k < 8; ++k)
                crc = uint8_t(crc & 0x80 ? (crc << 1) ^ 0xB5 : crc << 1);
        }
        return crc;
    }
    static Bytes Stuff(const Bytes& in)
    {
        Bytes r{0xC0};
        for (auto b: in) {
            if (b == 0xC0) {
                r.push_back(0xDB);
                r.push_back(0xDC);
            } else if (b == 0xDB) {
                r.push_back(0xDB);
                r.push_back(0xDD);
            } else
                r.push_back(b);
        }
        r.push_back(0xC0);
        return r;
    }
    static std::optional<Bytes> Unstuff(const Bytes& b)
    {
        if (b.size() < 2 || b.front() != 0xC0 || b.back() != 0xC0)
            return {};
        Bytes r;
        for (size_t i = 1; i + 1 < b.size(); ++i) {
            if (b[i] == 0xC0)
                throw Abandon(); // two frames or garbage with the right ends
            if (b[i] == 0xDB) {
                if (i + 2 < b.size() && (b[i + 1] == 0xDC || b[i + 1] == 0xDD))
                    r.push_back(b[++i] == 0xDC ? 0xC0 : 0xDB);
                else
                    throw Abandon(); // a lone escape
            } else
                r.push_back(b[i]);
        }
        return r;
    }
    void AddChannel() override
    {
        static const std::vector<const Fmt*> F = {&FU16, &FU8, &FU24, &FU32};
        switch (G.weighted({4, 2, 1})) {
            case 0: {
                auto f = G.pick(F);
                uint32_t addr = uint32_t(G.pick<uint64_t>({0x0131, 0x01320005, 0x13301, 0x12F0001, 0xC0DB, 0x0132000500C0}) & 0xffffffff);
                if (Mem.count(addr) && Mem[addr].size() != f->Width)
                    return;
                auto& c = New("default", AddrText(G, addr), f);
                Format(c, true);
                Set(c, addr, f->Width);
                break;
            }
            case 1: {
                uint32_t addr = 0x01300000u | uint32_t(G.below(4) << 8);
                auto& c = New("energy", AddrText(G, addr), &FU32);
                Format(c, false);
                Set(c, addr, 7);
                break;
            }
            default: {
                auto& c = New("date", "0x0120", nullptr);
                c.J["format"] = "string";
                c.J["string_data_size"] = 14;
                Set(c, 0x0120, 7);
            }
        }
    }
    void Set(Chan& c, uint32_t addr, size_t n)
    {
        c.Id = addr;
        c.Key = Hex(addr, 8);
        Mem[addr].resize(n);
        Fill(Mem[addr]);
    }
    void Fill(Bytes& b)
    {
        for (auto& x: b)
            x = G.chance(1, 6) ? G.pick<uint8_t>({0xC0, 0xDB, 0xDC, 0xDD}) : G.byte();
    }
    void Mutate() override
    {
        for (auto& a: Mem)
            Fill(a.second);
    }
    std::string Request(const Bytes& q, std::optional<Bytes>& a) override
    {
        auto u = Unstuff(q);
        PBT_CHECK(u && u->size() >= 13, "bad request " << pbt::hex(q));
        auto& b = *u;
        PBT_CHECK(b[0] == 0x48 && LE(b, 1, 2) == Id && LE(b, 3, 2) == 253 && std::equal(Password.begin(), Password.end(), b.begin() + 5) &&
                      Crc(b, 0, b.size() - 1) == b.back(),
                  "bad request " << pbt::hex(q) << " to " << Id);
        size_t n = b.size() - 11;
        PBT_CHECK(n >= 2 && n <= 4 && b[9] == (0xD0 | (n - 2)), "bad service field in " << pbt::hex(q));
        uint32_t addr = uint32_t(BE(b, 10, n));
        PBT_CHECK(n == 2 || b[10], "leading zero bytes are sent: " << pbt::hex(q));
        PBT_CHECK(Mem.count(addr), "request of unknown data " << pbt::hex(q));
        a = Answer(b, Mem[addr]);
        return Hex(addr, 8);
    }
    Bytes Answer(const Bytes& req, const Bytes& data, uint8_t cls = 5)
    {
        Bytes r{0x48, 253, 0, uint8_t(Id), uint8_t(Id >> 8), uint8_t(cls << 4 | (data.size() & 0xf)), req[10], req[11]};
        r.insert(r.end(), data.begin(), data.end());
        r.push_back(Crc(r, 0, r.size()));
        return Stuff(r);
    }
    std::optional<Bytes> Accept(const Exchange& e) override
    {
        auto u = Unstuff(e.Got);
        auto q = Unstuff(e.Q);
        if (!u || u->size() < 10)
            return {};
        auto& b = *u;
        if (b[0] != 0x48 || Crc(b, 0, b.size() - 1) != b.back() || ((b[5] >> 4) & 7) == 7)
            return {};
        if (LE(b, 3, 2) != Id || b[6] != (*q)[10] || b[7] != (*q)[11])
            return {};
        return Bytes(b.begin() + 8, b.end() - 1);
    }
    std::optional<Val> Value(const Chan& c, const Bytes& d) override
    {
        if (c.Type == "default") {
            if (d.size() > 4)
                return {};
            if (d.size() > c.F->Width)
                throw Abandon();
            return c.F->Value(BE(d, 0, d.size()));
        }
        if (d.size() != 7)
            return {};
        if (c.Type == "energy")
            return Val::UInt(LE(d, 3, 4));
        char s[64];
        snprintf(s, sizeof(s), "%02x.%02x.%02x %02x:%02x:%02x", d[4], d[5], d[6], d[2], d[1], d[0]);
        return Val::T(s);
    }
    Bytes Tamper(const Bytes& q, Bytes a) override
    {
        auto b = *Unstuff(a);
        auto req = *Unstuff(q);
        switch (G.below(4)) {
            case 0:
                b[3 + G.below(2)] ^= uint8_t(1 << G.below(8)); // other meter
                break;
            case 1:
                b[6 + G.below(2)] ^= uint8_t(1 << G.below(8)); // other command
                break;
            case 2:
                return Answer(req, {uint8_t(G.below(8))}, 7); // error
            default: {
                auto x = G.bytes(0, 10);
                return Answer(req, x);
            }
        }
        b.back() = Crc(b, 0, b.size() - 1);
        return Stuff(b);
    }
};

// ---------------------------------------------------------------- IVTM: ASCII
class Ivtm: public Meter
{
public:
    uint16_t Id;
    Bytes Mem;
    Ivtm(pbt::Gen& g, SimPort& p): Meter(g, p, "ivtm")
    {
        Id = uint16_t(g.bits(16));
        Config["slave_id"] = std::to_string(Id);
        SkipsNoise = true;
        Mem.resize(64);
        Mutate();
    }
    void AddChannel() override
    {
        static const std::vector<const Fmt*> F = {&FFloat, &FFloat, &FU8, &FU16, &FS16, &FU32, &FS32, &FU24};
        auto f = G.pick(F);
        unsigned addr = unsigned(G.below(14) * 4);
        auto& c = New("default", AddrText(G, addr), f);
        Format(c, f != &FFloat);
        c.Id = addr;
        c.Key = Hex(addr, 4) + " " + std::to_string(f->Width);
    }
    void Mutate() override
    {
        for (size_t i = 0; i < Mem.size(); i += 4) {
            auto b = G.flip() ? FFloat.Gen(G) : FU32.Gen(G);
            std::reverse(b.begin(), b.end());
            // no NaNs
            if ((b[3] & 0x7f) == 0x7f)
                b[3] ^= 0x10;
            std::copy(b.begin(), b.end(), Mem.begin() + long(i));
        }
    }
    static std::optional<unsigned> HexByte(const Bytes& b, size_t at)
    {
        unsigned r = 0;
        for (size_t i = at; i < at + 2; ++i) {
            if (i >= b.size() || !isxdigit(b[i]))
                return {};
            r = r << 4 | unsigned(b[i] <= '9' ? b[i] - '0' : (b[i] & 0x5f) - 'A' + 10);
        }
        return r;
    }
    std::string Request(const Bytes& q, std::optional<Bytes>& a) override
    {
        std::string s(q.begin(), q.end());
        PBT_CHECK(q.size() == 16 && s.substr(0, 7) == "$" + Hex(Id, 4) + "RR" && s[15] == '\r' && s.substr(13, 2) == Hex(Sum(q, 0, 13), 2), "bad request " << pbt::quote(s) << " to " << Id);
        auto addr = strtoul(s.substr(7, 4).c_str(), nullptr, 16), n = strtoul(s.substr(11, 2).c_str(), nullptr, 16);
        PBT_CHECK(n && addr + n <= Mem.size(), "bad request " << pbt::quote(s));
        a = Answer(Id, Bytes(Mem.begin() + long(addr), Mem.begin() + long(addr + n)));
        return Hex(addr, 4) + " " + std::to_string(n);
    }
    Bytes Answer(unsigned id, const Bytes& d)
    {
        std::string s = "!" + Hex(id, 4) + "RR";
        for (auto b: d)
            s += Hex(b, 2);
        Bytes r(s.begin(), s.end());
        s = Hex(Sum(r, 0, r.size()), 2) + "\r";
        r.insert(r.end(), s.begin(), s.end());
        return r;
    }
    std::optional<Bytes> Accept(const Exchange& e) override
    {
        // the frame ends with the first CR
        auto& g = e.Got;
        auto n = strtoul(e.Key.c_str() + 5, nullptr, 10);
        if (g.size() != 10 + 2 * n || g[0] != '!' || g[5] != 'R' || g[6] != 'R' || g.back() != '\r')
            return {};
        auto h = HexByte(g, 1), l = HexByte(g, 3), crc = HexByte(g, g.size() - 3);
        if (!h || !l || !crc || (*h << 8 | *l) != Id || *crc != Sum(g, 0, g.size() - 3))
            return {};
        Bytes d;
        for (size_t i = 0; i < n; ++i) {
            auto b = HexByte(g, 7 + 2 * i);
            if (!b)
                return {};
            d.push_back(uint8_t(*b));
        }
        return d;
    }
    std::optional<Val> Value(const Chan& c, const Bytes& d) override
    {
        return c.F->Value(LE(d, 0, d.size()));
    }
    Bytes Tamper(const Bytes&, Bytes a) override
    {
        Bytes d;
        for (size_t i = 7; i + 3 < a.size(); i += 2)
            d.push_back(uint8_t(*HexByte(a, i)));
        switch (G.below(4)) {
            case 0:
                return Answer(Id ^ (1u << G.below(16)), d);
            case 1:
                d.resize(G.below(d.size() + 1));
                return Answer(Id, d);
            case 2: {
                auto x = G.bytes(1, 40);
                d.insert(d.end(), x.begin(), x.end());
                return Answer(Id, d);
            }
            default: {
                // not hexadecimal, with the right sum
                size_t n = a.size();
                a[G.pick<size_t>({1 + G.below(4), 7 + G.below(n - 10)})] = uint8_t(G.pick<char>({'+', ' ', 'G', '-', 'x', '\t', '/', ':', '@', '`', 'g'}));
                auto s = Hex(Sum(a, 0, n - 3), 2);
                a[n - 3] = uint8_t(s[0]);
                a[n - 2] = uint8_t(s[1]);
                if (G.chance(1, 3))
                    a[n - 3 + G.below(2)] = uint8_t(G.pick<char>({'+', ' ', 'x', '?'}));
                return a;
            }
        }
    }
};

// ---------------------------------------------------------------- LLS (fuel level sensors)
class Lls: public Meter
{
public:
    uint8_t Id;
    std::map<uint8_t, Bytes> Mem;
    Lls(pbt::Gen& g, SimPort& p): Meter(g, p, "lls")
    {
        Id = g.byte();
        Config["slave_id"] = std::to_string(Id);
        SkipsNoise = true;
        UseCache = true;
    }
    void AddChannel() override
    {
        static const std::vector<const Fmt*> F = {&FFloat, &FS8, &FU16, &FU32, &FU8, &FS16, &FS32, &FU24};
        uint8_t cmd = G.pick<uint8_t>({0x06, 0xF0, 0xFC});
        auto& m = Mem[cmd];
        if (m.empty()) {
            m.resize(G.uniform(4, 20));
            Fill(m);
        }
        auto f = G.pick(F);
        unsigned off = unsigned(G.uniform(0, std::min(m.size() - f->Width, size_t(f->Width * 8 - 1))));
        auto& c = New("default", AddrText(G, cmd << 8 | off), f);
        Format(c, f != &FFloat);
        c.Id = cmd;
        c.Offset = off;
        c.Key = Hex(cmd, 2);
    }
    void Fill(Bytes& m)
    {
        for (auto& b: m)
            b = G.byte();
    }
    void Mutate() override
    {
        for (auto& m: Mem)
            Fill(m.second);
    }
    std::string Request(const Bytes& q, std::optional<Bytes>& a) override
    {
        PBT_CHECK(q.size() == 4 && q[0] == 0x31 && q[1] == Id && q[3] == Crc8(q, 0, 3) && Mem.count(q[2]), "bad request " << pbt::hex(q) << " to " << int(Id));
        a = Answer(Id, q[2], Mem[q[2]]);
        return Hex(q[2], 2);
    }
    Bytes Answer(uint8_t id, uint8_t cmd, const Bytes& d)
    {
        Bytes r{0x3E, id, cmd};
        r.insert(r.end(), d.begin(), d.end());
        r.push_back(Crc8(r, 0, r.size()));
        return r;
    }
    std::optional<Bytes> Accept(const Exchange& e) override
    {
        auto& b = e.Got;
        if (b.size() < 4 || b[0] != 0x3E || b[1] != Id || b[2] != e.Q[2] || b.back() != Crc8(b, 0, b.size() - 1))
            return {};
        return Bytes(b.begin() + 3, b.end() - 1);
    }
    std::optional<Val> Value(const Chan& c, const Bytes& p) override
    {
        if (c.Offset + c.F->Width > p.size())
            return {};
        return c.F->Value(LE(p, c.Offset, c.F->Width));
    }
    Bytes Tamper(const Bytes& q, Bytes a) override
    {
        Bytes d(a.begin() + 3, a.end() - 1);
        switch (G.below(4)) {
            case 0:
                return Answer(uint8_t(Id ^ 1 << G.below(8)), q[2], d);
            case 1:
                return Answer(Id, uint8_t(q[2] ^ 1 << G.below(8)), d);
            case 2:
                d.resize(G.below(d.size() + 1));
                return Answer(Id, q[2], d);
            default:
                return q; // echo
        }
    }
};

// ---------------------------------------------------------------- Pulsar: id4 BCD, function, length, data, request id, crc
class Pulsar: public Meter
{
public:
    uint32_t Id;
    std::map<unsigned, Bytes> Mem;
    Bytes Time;
    uint16_t LastId = 0;
    bool Any = false;
    Pulsar(pbt::Gen& g, SimPort& p): Meter(g, p, "pulsar")
    {
        Id = uint32_t(g.range(0, 99999999));
        Config["slave_id"] = std::to_string(Id);
        SkipsNoise = true;
        LateOk = true;
        Mutate();
    }
    void AddChannel() override
    {
        static const std::vector<const Fmt*> F = {&FDouble, &FFloat, &FU32, &FS32, &FU16, &FU64};
        if (G.chance(1, 10)) {
            auto& c = New("systime", "0", &FU64);
            c.Key = "time";
            return;
        }
        unsigned addr = unsigned(G.below(32));
        auto f = G.pick(F);
        if (Mem.count(addr) && Mem[addr].size() != f->Width)
            return;
        auto& c = New("default", AddrText(G, addr), f);
        Format(c, f != &FDouble);
        c.Id = addr;
        c.Key = std::to_string(addr);
        Mem[addr].resize(f->Width);
        Mutate();
    }
    void Mutate() override
    {
        Time = G.bytes(6, 6);
        for (auto& m: Mem) {
            auto n = m.second.size();
            m.second = n == 8 && G.flip() ? FDouble.Gen(G) : n == 4 && G.flip() ? FFloat.Gen(G) : n == 8 ? FU64.Gen(G) : n == 4 ? FU32.Gen(G) : FU16.Gen(G);
            // no NaNs
            if ((m.second[0] & 0x7f) == 0x7f)
                m.second[0] ^= 0x10;
            std::reverse(m.second.begin(), m.second.end());
        }
    }
    Bytes Bcd(uint32_t id)
    {
        Bytes r(4);
        for (int i = 3; i >= 0; --i, id /= 100)
            r[size_t(i)] = uint8_t((id / 10 % 10) << 4 | id % 10);
        return r;
    }
    std::string Request(const Bytes& q, std::optional<Bytes>& a) override
    {
        PBT_CHECK(q.size() >= 10 && q[5] == q.size() && ref::crcOk(q) && Bytes(q.begin(), q.begin() + 4) == Bcd(Id), "bad request " << pbt::hex(q) << " to " << Id);
        uint16_t id = uint16_t(LE(q, q.size() - 4, 2));
        Any = true;
        LastId = id;
        if (q.size() == 10) {
            PBT_CHECK(q[4] == 4, "system time is requested with function " << int(q[4]));
            a = Answer(Id, q[4], Time, id);
            return "time";
        }
        PBT_CHECK(q.size() == 14 && q[4] == 1, "bad request " << pbt::hex(q));
        uint32_t mask = uint32_t(LE(q, 6, 4));
        unsigned n = 0;
        while (n < 32 && mask != 1u << n)
            ++n;
        PBT_CHECK(Mem.count(n), "request of unknown data " << pbt::hex(q));
        a = Answer(Id, q[4], Mem[n], id);
        return std::to_string(n);
    }
    Bytes Answer(uint32_t id, uint8_t f, const Bytes& d, uint16_t rid)
    {
        auto r = Bcd(id);
        r.push_back(f);
        r.push_back(uint8_t(10 + d.size()));
        r.insert(r.end(), d.begin(), d.end());
        r.push_back(uint8_t(rid));
        r.push_back(uint8_t(rid >> 8));
        ref::appendCrc(r);
        return r;
    }
    std::optional<Bytes> Accept(const Exchange& e) override
    {
        auto& b = e.Got;
        if (b.size() < 11 || b[5] != b.size() || !ref::crcOk(b) || !std::equal(b.begin(), b.begin() + 5, e.Q.begin()) || LE(b, b.size() - 4, 2) != LE(e.Q, e.Q.size() - 4, 2))
            return {};
        return Bytes(b.begin() + 6, b.end() - 4);
    }
    std::optional<Val> Value(const Chan& c, const Bytes& d) override
    {
        if (d.size() != (c.Key == "time" ? 6 : c.F->Width))
            return {};
        return c.F->Value(LE(d, 0, d.size()));
    }
    Bytes Tamper(const Bytes& q, Bytes a) override
    {
        Bytes d(a.begin() + 6, a.end() - 4);
        uint16_t rid = uint16_t(LE(q, q.size() - 4, 2));
        switch (G.below(5)) {
            case 0:
                return Answer((Id + 1 + uint32_t(G.below(90000000))) % 100000000, q[4], d, rid);
            case 1:
                return Answer(Id, q[4], d, uint16_t(rid ^ 1 << G.below(16)));
            case 2:
                d.resize(G.below(d.size() + 1));
                return Answer(Id, q[4], d, rid);
            case 3: {
                auto x = G.bytes(1, 8);
                d.insert(d.end(), x.begin(), x.end());
                return Answer(Id, q[4], d, rid);
            }
            default:
                return Answer(Id, 0, G.flip() ? d : Bytes{uint8_t(G.below(9))}, rid); // error
        }
    }
};

// ---------------------------------------------------------------- S2K relays (Bolid)
class S2k: public Meter
{
public:
    uint8_t Id;
    uint8_t Configs[9];
    std::map<unsigned, unsigned> State; // relay -> state as the last answer told
    S2k(pbt::Gen& g, SimPort& p): Meter(g, p, "s2k")
    {
        Id = uint8_t(g.uniform(1, 255));
        Config["slave_id"] = std::to_string(Id);
        for (unsigned i = 1; i < 5; ++i)
            State[i] = 2;
        Mutate();
    }
    static uint8_t Crc(const Bytes& b, size_t n)
    {
        uint8_t crc = 0;
        for (size_t i = 0; i < n; ++i) {
            uint8_t idx = crc ^ b[i];
            Bytes one{idx};
            crc = Crc8(one, 0, 1);
            // the manufacturer's table differs from Dallas CRC in two entries
            if (crc == 0xF7)
                crc = 0xF6;
            else if (crc == 0xE8)
                crc = 0xFC;
        }
        return crc;
    }
    void AddChannel() override
    {
        unsigned addr = unsigned(G.uniform(1, 4));
        static const std::vector<const char*> T = {"relay", "relay_mode", "relay_default", "relay_delay"};
        std::string t = G.pick(T);
        auto& c = New(t, AddrText(G, addr), &FU8);
        Format(c, false);
        c.Id = addr;
        c.Writable = t == "relay";
        c.Key = "5 " + std::to_string(t == "relay_delay" ? addr + 4 : addr);
    }
    void Mutate() override
    {
        for (auto& c: Configs)
            c = G.byte();
    }
    Bytes Frame(Bytes b)
    {
        b.push_back(Crc(b, b.size()));
        return b;
    }
    std::string Request(const Bytes& q, std::optional<Bytes>& a) override
    {
        PBT_CHECK(q.size() == 7 && q[0] == Id && q[1] == 6 && q[2] == 0 && q[6] == Crc(q, 6), "bad request " << pbt::hex(q) << " to " << int(Id));
        if (q[3] == 5) {
            PBT_CHECK(q[4] >= 1 && q[4] <= 8 && q[5] == 0, "bad request " << pbt::hex(q));
            a = Frame({Id, 5, 6, q[4], Configs[q[4]]});
            return "5 " + std::to_string(q[4]);
        }
        PBT_CHECK(q[3] == 0x15 && q[4] >= 1 && q[4] <= 4 && (q[5] == 1 || q[5] == 2), "bad request " << pbt::hex(q));
        a = Frame({Id, 5, 0x16, q[4], q[5]});
        return "15 " + std::to_string(q[4]) + " " + std::to_string(q[5]);
    }
    std::optional<Bytes> Accept(const Exchange& e) override
    {
        auto& b = e.Got;
        if (b.size() != 6 || b[0] != Id || b[1] != 5 || b[2] != e.Q[3] + 1 || b[3] != e.Q[4] || b[5] != Crc(b, 5))
            return {};
        return Bytes{b[4]};
    }
    std::optional<Val> Value(const Chan&, const Bytes& d) override
    {
        return Val::UInt(d[0]);
    }
    std::optional<Val> Walk(const Chan& c, Cursor& cur, bool& permanent) override
    {
        if (c.Type == "relay")
            return Val::UInt(State[c.Id] != 0 && State[c.Id] != 2);
        if (c.Type == "relay_mode")
            return Val::UInt(State[c.Id]);
        return Meter::Walk(c, cur, permanent);
    }
    Bytes Tamper(const Bytes&, Bytes a) override
    {
        a.pop_back();
        a[G.below(4)] ^= uint8_t(1 << G.below(8));
        if (G.chance(1, 4))
            a.resize(G.uniform(1, 5));
        return Frame(a);
    }
};

// ---------------------------------------------------------------- Uniel
class Uniel: public Meter
{
public:
    uint8_t Id;
    std::map<uint8_t, uint8_t> Mem;
    Uniel(pbt::Gen& g, SimPort& p): Meter(g, p, "uniel")
    {
        Id = g.byte();
        Config["slave_id"] = std::to_string(Id);
    }
    void AddChannel() override
    {
        static const std::vector<const char*> T = {"relay", "input", "param", "brightness"};
        std::string t = G.pick(T);
        uint8_t addr = G.chance(1, 5) ? 0xff : uint8_t(G.below(64));
        // brightness: the parameter to write is in the high byte
        unsigned w = t == "brightness" ? unsigned(G.below(8)) : 0;
        auto& c = New(t, AddrText(G, w << 8 | addr), &FU8);
        c.Id = w << 8 | addr;
        c.Writable = t != "input";
        c.Key = "5 " + Hex(addr, 2);
        Mem[addr] = G.byte();
    }
    void Mutate() override
    {
        for (auto& m: Mem)
            m.second = G.chance(1, 4) ? 0xff : G.byte();
    }
    Bytes Frame(const Bytes& b)
    {
        Bytes r{0xff, 0xff};
        r.insert(r.end(), b.begin(), b.end());
        r.push_back(Sum(b, 0, b.size()));
        return r;
    }
    std::string Request(const Bytes& q, std::optional<Bytes>& a) override
    {
        PBT_CHECK(q.size() == 8 && q[0] == 0xff && q[1] == 0xff && q[3] == Id && q[6] == 0 && q[7] == Sum(q, 2, 7), "bad request " << pbt::hex(q) << " to " << int(Id));
        if (q[2] == 5) {
            PBT_CHECK(q[4] == 0 && Mem.count(q[5]), "bad request " << pbt::hex(q));
            a = Frame({5, 0, Mem[q[5]], q[5], 0});
            return "5 " + Hex(q[5], 2);
        }
        PBT_CHECK(q[2] == 6 || q[2] == 0xA, "bad request " << pbt::hex(q));
        a = Frame({q[2], 0, q[4], q[5], 0});
        return Hex(q[2], 1) + " " + Hex(q[5], 2) + " " + Hex(q[4], 2);
    }
    std::optional<Bytes> Accept(const Exchange& e) override
    {
        // FF FF (or a single FF) starts a frame, anything else before it is skipped
        auto& b = e.Got;
        size_t i = 0;
        while (i < b.size() && b[i] != 0xff)
            ++i;
        ++i;
        if (i < b.size() && b[i] == 0xff)
            ++i;
        if (b.size() < i + 6 || b[i + 5] != Sum(b, i, i + 5))
            return {};
        if (b[i] != e.Q[2] || b[i + 1] != 0 || b[i + 3] != e.Q[5])
            return {};
        if (e.Q[2] != 5 && b[i + 2] != e.Q[4])
            return {};
        return Bytes{b[i + 2]};
    }
    std::optional<Val> Value(const Chan& c, const Bytes& d) override
    {
        return Val::UInt(c.Type == "relay" ? d[0] != 0 : d[0]);
    }
    Bytes Tamper(const Bytes&, Bytes a) override
    {
        Bytes b(a.begin() + 2, a.end() - 1);
        b[G.pick({0u, 1u, 3u, 3u})] ^= uint8_t(1 << G.below(8));
        return Frame(b);
    }
};
